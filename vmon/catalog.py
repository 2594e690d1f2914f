"""A catalogue of calls across the whole library, for the monitors that compare the same call under different circumstances.

An entry is name -> (arguments, prepare, call): arguments(rng) makes plain data, prepare(*data) the objects handed to the library, and
call(*objects) the library call.  canon(value) is the value as plain data, whatever order sets and enumerations come in."""
import types


def canon(x, depth=0):
    if x is None or isinstance(x, (bool, int, str)):
        return x
    t = type(x).__name__
    if t == 'Permutation':
        return ('permutation',) + tuple(x.oneline)
    if t in ('Tableau', 'ReversePlanePartition', 'MarkedReversePlanePartition'):
        return ('tableau', tuple((i, j, v) for i, j, v in x))
    if t == 'ValuedSetTableau':
        return ('vst', canon(x.tableau), canon(x.grouping))
    if t == 'SymmetricMonomial':
        return ('monomial', x.index(), x.order())
    if t == 'Polynomial':
        d = {}
        for ind in x:
            if x[ind]:
                k = tuple(sorted((i, e) for i, e in ind.items() if e))
                d[k] = d.get(k, 0) + x[ind]
        if set(d) <= {()}:
            return d.get((), 0)
        return ('polynomial', tuple(sorted((k, v) for k, v in d.items() if v)))
    if t == 'BoxOperator':
        return ('boxes', canon(x.vector))
    if t in ('Vector', 'SymmetricPolynomial'):
        items = [(canon(k), canon(c)) for k, c in x.items()]
        return (t, tuple(sorted([y for y in items if y[1] != 0], key=repr)))
    if t == 'Word':
        return ('word', tuple(x.elements) if hasattr(x, 'elements') else repr(x))
    if isinstance(x, tuple):
        return tuple(canon(y) for y in x)
    if isinstance(x, dict):
        return ('dict', tuple(sorted(((canon(k), canon(v)) for k, v in x.items()), key=repr)))
    if isinstance(x, (list, set, frozenset)) or isinstance(x, types.GeneratorType) or hasattr(x, '__next__'):
        return ('all', tuple(sorted((canon(y) for y in x), key=repr)))
    if hasattr(x, '__dict__') or hasattr(x, '__slots__'):
        return (t, repr(x))
    return repr(x)


def strict(rng, size=5):
    from . import ref
    return rng.choice(list(ref.strict_upto(size)))


def part(rng, size=4):
    from . import ref
    return rng.choice(list(ref.partitions_upto(size)))


def under(rng, mu, is_strict=False):
    from . import ref
    return rng.choice(list(ref.subpartitions(mu, strict=is_strict)))


def perm(rng, n=4):
    w = list(range(1, n + 1))
    rng.shuffle(w)
    return tuple(w)


def signed(rng, n=3):
    return tuple(a * rng.choice((1, -1)) for a in perm(rng, n))


def involution(rng, n=4, fpf=False, sign=False):
    w = list(range(1, n + 1))
    free = list(w)
    rng.shuffle(free)
    while len(free) > 1:
        a, b = free.pop(), free.pop()
        if fpf or rng.random() < .6:
            e = -1 if sign and rng.random() < .4 else 1
            w[a - 1], w[b - 1] = e * b, e * a
        elif sign:
            w[a - 1] *= rng.choice((1, -1))
    if sign and free:
        w[free[0] - 1] *= rng.choice((1, -1))
    return tuple(w)


def word(rng, top=4, length=6, even=False):
    return tuple(rng.randrange(1, top + 1) for _ in range(rng.randrange(0, length)))


def P(w):
    from permutations import Permutation
    return Permutation(*w)


def tableau(fill):
    from tableaux import Tableau
    return Tableau(dict(fill))


ENTRIES = {}


def entry(name, args, call, prepare=None):
    assert name not in ENTRIES, name
    ENTRIES[name] = (args, prepare or (lambda *a: a), call)


def build():
    if ENTRIES:
        return ENTRIES
    from symmetric import SymmetricPolynomial as S
    from permutations import Permutation as W
    from partitions import Partition as Q
    from tableaux import Tableau as T
    from insertion import InsertionAlgorithm as I
    from words import Word
    from vectors import Vector
    from vst import ValuedSetTableau as V
    import operators as O
    import crystals as C
    import utils as U
    from . import ring

    def pair(is_strict, size, skew=True):
        def make(rng):
            mu = (strict if is_strict else part)(rng, size)
            nu = under(rng, mu, is_strict) if skew and rng.random() < .4 else ()
            return mu, nu
        return make

    # symmetric functions
    for f, is_strict, size in (('schur', 0, 4), ('schur_s', 0, 3), ('schur_p', 1, 5), ('schur_q', 1, 5)):
        entry(f, lambda rng, p=pair(is_strict, size): (rng.randrange(0, 4),) + p(rng), getattr(S, f))
    for f, is_strict, size in (('', 0, 3), ('_p', 1, 4), ('_q', 1, 4), ('_s', 0, 3)):
        for k in ('stable_grothendieck%s', 'stable_grothendieck%s_doublebar'):
            name = k % f
            entry(name, lambda rng, p=pair(is_strict, size): (rng.randrange(0, 4),) + p(rng) + (rng.choice((None, 2, 3, 4)),), getattr(S, name))
        name = 'dual_stable_grothendieck%s' % f
        entry(name, lambda rng, p=pair(is_strict, size): (rng.randrange(0, 4),) + p(rng), getattr(S, name))
        name = 'slow_transposed_dual_stable_grothendieck%s' % f
        entry(name, lambda rng, p=pair(is_strict, size - 1): (rng.randrange(0, 3),) + p(rng), getattr(S, name))
    for name, is_strict in (('mp_dual_stable_grothendieck', 0), ('mp_dual_stable_grothendieck_p', 1), ('mn_stable_grothendieck', 0),
                            ('mn_stable_grothendieck_q', 1)):
        entry(name, lambda rng, p=pair(is_strict, 3): (rng.randrange(1, 4),) + p(rng), getattr(S, name))
    for base, exp, is_strict in (('schur', 'schur_expansion', 0), ('schur_p', 'schur_expansion', 1), ('schur', 'omega_schur_expansion', 0),
                                 ('stable_grothendieck', 'grothendieck_expansion', 0), ('stable_grothendieck_p', 'GP_expansion', 1),
                                 ('stable_grothendieck_q', 'GQ_expansion', 1), ('stable_grothendieck_q', 'GP_expansion', 1),
                                 ('dual_stable_grothendieck', 'dual_grothendieck_expansion', 0),
                                 ('dual_stable_grothendieck_p', 'gp_expansion', 1), ('dual_stable_grothendieck_q', 'gq_expansion', 1),
                                 ('dual_stable_grothendieck_p', 'dual_grothendieck_expansion', 1),
                                 ('slow_transposed_dual_stable_grothendieck_p', 'jp_expansion', 1)):
        entry('%s of %s' % (exp, base),
              lambda rng, d=is_strict: (lambda mu: (sum(mu) if rng.random() < .6 else rng.randrange(1, 4), mu))((strict if d else part)(rng, 3)),
              getattr(S, exp), lambda n, mu, b=base: (getattr(S, b)(n, mu),))
    entry('product of polynomials', lambda rng: (rng.randrange(1, 4), part(rng, 3), strict(rng, 3)), lambda f, g: (f * g, f + g, f - g),
          lambda n, a, b: (S.schur(n, a), S.stable_grothendieck_p(n, b)))
    def augmented(f, g):
        a, b, c = f, f, f
        a += g
        b -= g
        c *= 2
        return a, b, c
    entry('augmented assignment', lambda rng: (rng.randrange(1, 4), part(rng, 3), part(rng, 3)), augmented,
          lambda n, a, b: (S.schur(n, a), S.schur(n, b)))
    entry('power', lambda rng: (rng.randrange(1, 4), strict(rng, 3), rng.randrange(1, 4)), lambda f, k: f ** k,
          lambda n, a, k: (S.schur_p(n, a), k))
    for m in ('polynomial', 'serialize', 'lowest_degree_terms', 'highest_degree_terms'):
        entry('symmetric.' + m, lambda rng: (rng.randrange(1, 4), strict(rng, 4)), lambda f, m=m: getattr(f, m)(),
              lambda n, a: (S.stable_grothendieck_p(n, a),))
    entry('truncate', lambda rng: (rng.randrange(1, 4), strict(rng, 4), rng.randrange(0, 6)), lambda f, k: f.truncate(k),
          lambda n, a, k: (S.stable_grothendieck_q(n, a), k))

    # permutations
    for m in ('length', 'code', 'shape', 'rothe_diagram', 'cycles', 'right_descent_set', 'left_descent_set', 'inverse', 'get_reduced_word',
              'get_reduced_words', 'get_hecke_words', 'bruhat_covers', 'is_grassmannian', 'is_involution', 'last_descent'):
        def call(w, m=m):
            v = getattr(w, m)
            return v() if callable(v) and not isinstance(v, W) else v
        entry('permutation.' + m, lambda rng: (perm(rng, rng.randrange(1, 5)),), call if m != 'get_hecke_words' else
              (lambda w: w.get_hecke_words(length_bound=w.length + 1)), lambda w: (P(w),))
    for m in ('length', 'get_reduced_words', 'is_even_signed', 'right_descent_set', 'inverse'):
        def call(w, m=m):
            v = getattr(w, m)
            return v() if callable(v) and not isinstance(v, W) else v
        entry('signed.' + m, lambda rng: (signed(rng),), call, lambda w: (P(w),))
    for m in ('involution_length', 'involution_code', 'involution_shape', 'get_involution_words', 'get_atoms', 'get_min_atom',
              'involution_bruhat_covers', 'get_involution_word', 'get_involution_hecke_words'):
        def call(w, m=m):
            if m == 'get_involution_hecke_words':
                return w.get_involution_hecke_words(length_bound=w.involution_length + 1)
            v = getattr(w, m)
            return v() if callable(v) and not isinstance(v, W) else v
        entry('involution.' + m, lambda rng: (involution(rng, rng.randrange(1, 5)),), call, lambda w: (P(w),))
    for m in ('involution_length', 'get_atoms', 'get_atoms_d', 'get_involution_words'):
        def call(w, m=m):
            v = getattr(w, m)
            return v() if callable(v) and not isinstance(v, W) else v
        entry('signed involution.' + m, lambda rng: (involution(rng, 3, sign=True),), call if m != 'get_atoms_d' else
              (lambda w: w.get_atoms_d() if w.is_even_signed() else None), lambda w: (P(w),))
    for m in ('fpf_involution_length', 'fpf_involution_code', 'fpf_involution_shape', 'get_fpf_involution_words', 'get_fpf_atoms',
              'fpf_involution_bruhat_covers', 'is_fpf_grassmannian', 'get_symplectic_hecke_words'):
        def call(w, m=m):
            if m == 'get_symplectic_hecke_words':
                return w.get_symplectic_hecke_words(length_bound=w.fpf_involution_length + 1)
            v = getattr(w, m)
            return v() if callable(v) and not isinstance(v, W) else v
        entry('fpf.' + m, lambda rng: (involution(rng, rng.choice((2, 4)), fpf=True),), call, lambda w: (P(w),))
    entry('permutation.stable_grothendieck', lambda rng: (perm(rng, 3), rng.randrange(1, 3), rng.choice((None, 3, 4))),
          lambda w, n, d: w.stable_grothendieck(n, degree_bound=d), lambda w, n, d: (P(w), n, d))
    entry('permutation.symplectic_stable_grothendieck', lambda rng: (involution(rng, 4, fpf=True), rng.randrange(1, 3), rng.choice((3, 4))),
          lambda w, n, d: w.symplectic_stable_grothendieck(n, d), lambda w, n, d: (P(w), n, d))
    entry('permutation.involution_stable_grothendieck', lambda rng: (involution(rng, 3), rng.randrange(1, 3), rng.choice((3, 4))),
          lambda w, n, d: w.involution_stable_grothendieck(n, d), lambda w, n, d: (P(w), n, d))
    entry('permutation product', lambda rng: (signed(rng), signed(rng), rng.randrange(-3, 4)),
          lambda v, w, k: (v * w, v % w, v ** k, v == w, v.inverse()), lambda v, w, k: (P(v), P(w), k))
    for name, lim in (('all', 4), ('involutions', 5), ('fpf_involutions', 5)):
        entry('Permutation.' + name, lambda rng, lim=lim: (rng.randrange(0, lim),), getattr(W, name))
    entry('Permutation.all signed', lambda rng: (rng.randrange(0, 4),), lambda n: W.all(n, signed=True))
    for name in ('from_word', 'from_involution_word', 'from_fpf_involution_word'):
        entry('Permutation.' + name, lambda rng: (list(word(rng)),),
              (lambda w, f=getattr(W, name): f(w, strict=False)) if 'inv' in name else getattr(W, name))
    entry('hecke levels', lambda rng: (rng.randrange(1, 4), rng.randrange(1, 4)),
          lambda n, k: tuple(set(a) for a in W.hecke_levels(n, length_bound=k)))
    for name in ('hecke_words', 'involution_hecke_words'):
        entry('Permutation.' + name, lambda rng: (rng.randrange(1, 4), rng.randrange(1, 4)),
              lambda n, k, f=getattr(W, name): f(n, length_bound=k))
    entry('Permutation.symplectic_hecke_words', lambda rng: (rng.choice((2, 4)), rng.randrange(1, 4)),
          lambda n, k: W.symplectic_hecke_words(n, length_bound=k))
    entry('grassmannian', lambda rng: (part(rng), strict(rng)), lambda a, b: (W.get_grassmannian(*a), W.get_inv_grassmannian(*b),
                                                                             W.get_fpf_grassmannian(*b)))

    # partitions
    entry('Partition.all', lambda rng: (rng.randrange(0, 7), rng.choice((None, 2, 3)), rng.choice((None, 2, 3)), rng.random() < .5), Q.all)
    entry('Partition.subpartitions', lambda rng: (lambda mu: (mu, under(rng, mu), rng.random() < .5))(part(rng, 6)), Q.subpartitions)
    entry('Partition.rims', lambda rng: (strict(rng, 7), rng.randrange(0, 3)), Q.rims)
    for f in ('decompose_shifted_shape_by_vertical_strips', 'decompose_shifted_shape_by_rims', 'transpose', 'decrement_strict',
              'remove_shifted_inner_corners', 'shifted_shape'):
        entry('Partition.' + f, lambda rng: (strict(rng, 7),), getattr(Q, f))
    entry('Partition.from_skew', lambda rng: (lambda mu: (mu, under(rng, mu, True)))(strict(rng, 7)), lambda s: Q.from_skew(s, shifted=True),
          lambda mu, nu: (Q.skew(mu, nu, shifted=True),))
    entry('Partition.growth_diagram', lambda rng: (perm(rng, rng.randrange(1, 5)),), lambda d: [list(map(tuple, r)) for r in Q.growth_diagram(d)],
          lambda w: ({(i + 1, a): 1 for i, a in enumerate(w)},))

    # tableaux
    for f, is_strict in (('semistandard', 0), ('semistandard_setvalued', 0), ('semistandard_marked', 0), ('semistandard_rpp', 0),
                         ('semistandard_shifted_marked', 1), ('semistandard_shifted_marked_setvalued', 1), ('semistandard_marked_rpp', 1),
                         ('count_semistandard', 0), ('count_semistandard_setvalued', 0), ('count_semistandard_marked', 0),
                         ('count_semistandard_rpp', 0), ('count_semistandard_shifted_marked', 1), ('count_semistandard_marked_rpp', 1),
                         ('count_semistandard_shifted_marked_setvalued', 1)):
        entry('Tableau.' + f, lambda rng, p=pair(is_strict, 4): (rng.randrange(0, 3),) + p(rng), getattr(T, f))
    entry('Tableau.standard', pair(0, 5), T.standard)
    entry('Tableau.standard_shifted_marked', pair(1, 5), T.standard_shifted_marked)

    def filled(rng):
        mu = part(rng, 6)
        return tuple(((i + 1, j + 1), i + j + 1) for i, a in enumerate(mu) for j in range(a)),
    for m in ('transpose', 'standardize', 'row_reading_word', 'column_reading_word', 'shape', 'counter', 'negate', 'double',
              'string_array', 'is_semistandard', 'values', 'max_row', 'weight'):
        def call(t, m=m):
            v = getattr(t, m)
            return v() if callable(v) else v
        entry('tableau.' + m, filled, call, lambda *f: (tableau(f[0]),))
    entry('descent_set', lambda rng: (pair(1, 5)(rng)[0],), lambda ts: [t.descent_set() for t in ts],
          lambda mu: (list(T.standard_shifted_marked(mu)),))
    entry('tableau edits', lambda rng: filled(rng) + (rng.randrange(1, 4), rng.randrange(1, 4), rng.randrange(1, 6)),
          lambda t, i, j, v: (t.set(i, j, v), t.add(i, j, v), t.find(v), t.get(i, j), t.get_row(i), t.get_column(j),
                              t.clear(i, j) if (i, j) in t else None, t.replace(i, j, v) if (i, j) in t else None),
          lambda f, i, j, v: (tableau(f), i, j, v))

    # insertion and words
    entry('hecke', lambda rng: (word(rng, 3),), I.hecke)
    entry('orthogonal_hecke', lambda rng: (word(rng, 3),), I.orthogonal_hecke)
    entry('symplectic_hecke', lambda rng: (tuple(2 + a for a in word(rng, 3)),),
          lambda w: I.symplectic_hecke(w) if not w or w[0] % 2 == 0 else None)
    entry('hecke, recorded', lambda rng: (rng.randrange(4), [rng.randrange(1, 4) for _ in range(4)]),
          lambda r, w: I.hecke(w, r, multisetvalued=True), lambda k, w: ([1 + sum(w[j] <= w[j - 1] for j in range(1, i + 1)) for i in range(4)], w))
    entry('inverse_hecke', lambda rng: (word(rng, 3),), I.inverse_hecke, lambda w: I.hecke(w))
    entry('inverse_orthogonal_hecke', lambda rng: (word(rng, 3),), I.inverse_orthogonal_hecke, lambda w: I.orthogonal_hecke(w))
    entry('f_crystal_operator', lambda rng: (rng.randrange(1, 3), word(rng, 3), word(rng, 3), word(rng, 3)),
          lambda i, *a: (Word.f_crystal_operator(i, *a), Word.e_crystal_operator(i, *a)))
    for f in ('increasing_zeta', 'decreasing_zeta', 'unimodal_zeta', 'descent_set', 'peaks'):
        entry('Word.' + f, lambda rng: (tuple(sorted(word(rng), reverse=f == 'decreasing_zeta') if rng.random() < .7 else word(rng)),), getattr(Word, f))
    for f in ('little_bump', 'involution_little_bump'):
        def words(rng, f=f):
            w = perm(rng) if f == 'little_bump' else involution(rng)
            return w,

        def bump(w, f=f):
            # the first word of the element, bumped at the positions where removing a letter keeps it reduced
            a = sorted(w.get_reduced_words() if f == 'little_bump' else w.get_involution_words())[0]
            out = []
            for i in range(1, len(a)):
                out.append(getattr(W, f)(a, i, i + 1))
            return out
        entry('Permutation.' + f, words, lambda w, f=f, bump=bump: attempt(bump, w), lambda w: (P(w),))

    # crystals, valued-set tableaux, operators
    entry('tableau crystal', lambda rng: (part(rng, 3), rng.randrange(1, 4)),
          lambda mu, n: (lambda c: (c.edges, c.components, [c[i] for i in range(len(c))]))(C.TableauCrystalGenerator(mu, n)))
    entry('word crystal', lambda rng: (perm(rng, 3), rng.randrange(1, 3), rng.randrange(1, 4)),
          lambda w, k, n: (lambda c: (len(c.edges), sorted(map(len, c.components)), c.factorizations))(C.WordCrystalGenerator(w, k, n)))
    entry('shifted crystal', lambda rng: (rng.choice(((1,), (2,), (2, 1), (3,))), 2, rng.randrange(0, 2)),
          lambda mu, n, e: (lambda c: (len(c.edges), sorted(map(len, c.components)), c.insertion_tableau))(C.ShiftedCrystalGenerator(mu, n, e)))
    entry('ValuedSetTableau.all', lambda rng: (rng.randrange(1, 3), strict(rng, 4)), V.all)
    entry('transition', lambda rng: (strict(rng, 4),), lambda mu: [v.transition(1) for v in V.all(2, mu)])

    def vector(rng):
        return tuple(sorted({strict(rng, 5): rng.randrange(-3, 4) for _ in range(3)}.items())),
    for f in ('operator_shifted_add', 'operator_shifted_row_remove', 'operator_shifted_column_remove'):
        entry(f, lambda rng: (rng.randrange(1, 4),) + vector(rng), lambda i, v, f=getattr(O, f): f(i)(v), lambda i, v: (i, Vector(dict(v))))
    for f in ('operator_AL', 'operator_AR', 'operator_R', 'operator_C'):
        entry(f, lambda rng: (rng.randrange(1, 4),) + vector(rng), lambda i, v, f=getattr(O, f): f(i)(v), lambda i, v: (i, Vector(dict(v))))
    entry('vectors', lambda rng: vector(rng) + vector(rng), lambda v, w: (v + w, v - w, v * 3, -v, v == w, v.keys(), v.is_zero()),
          lambda v, w: (Vector(dict(v)), Vector(dict(w))))

    def two(rng):
        return rng.randrange(10 ** 6),

    def polys(salt):
        import random
        rng = random.Random(salt)
        return ring.build(rng, ring.random_model(rng, 3)), ring.build(rng, ring.random_model(rng, 2))
    from polynomials import Polynomial, X
    entry('polynomials', two, lambda f, g: (f + g, f - g, f * g, f * f, -f, f == g, repr(f)),
          lambda salt: tuple(p if isinstance(p, Polynomial) else p * X(0) ** 0 for p in polys(salt)))
    entry('G', lambda rng: (rng.randrange(1, 4), perm(rng, 3)), U.G, lambda n, w: (n, P(w)))
    entry('GP', lambda rng: (rng.randrange(1, 4), strict(rng, 4)), U.GP)
    from . import catalog_more
    catalog_more.build(entry, pair)
    return ENTRIES


def outcome(name, args):
    """The value of one call as plain data; an exception is an outcome too."""
    _, prepare, call = build()[name]
    try:
        return canon(call(*prepare(*args)))
    except (AssertionError, IndexError, KeyError, TypeError, ValueError, AttributeError, ZeroDivisionError) as e:
        return ('raised', type(e).__name__)


def themes():
    """Entries that are likely to share code and caches."""
    ans = {}
    for name in build():
        key = ('symmetric' if any(k in name for k in ('schur', 'grothendieck', 'expansion', 'symmetric', 'product', 'power', 'truncate', 'G'))
               else 'permutation' if any(k in name.lower() for k in ('permutation', 'signed', 'involution', 'fpf', 'hecke', 'grass'))
               else 'shapes')
        ans.setdefault(key, []).append(name)
    return ans


def queries(rng, count, spread=2):
    """Some calls, several of them to the same entries, and many that share their arguments."""
    import random
    groups = themes()
    ans = []
    pool = [rng.randrange(10 ** 9) for _ in range(3)]
    while len(ans) < count:
        group = rng.choice(sorted(groups)) if rng.random() < .8 else None
        name = rng.choice(groups[group] if group else sorted(build()))
        for _ in range(rng.randrange(1, 2 + spread)):
            ans.append((name, build()[name][0](random.Random(rng.choice(pool)) if rng.random() < .5 else rng)))
    return ans[:count]


def attempt(f, *args):
    try:
        return f(*args)
    except AssertionError:
        return 'refused'


def text(x):
    """What a value prints, for the kinds of value that are meant to be read."""
    return repr(x) if type(x).__name__ in ('Polynomial', 'Vector', 'SymmetricPolynomial', 'Tableau', 'Permutation', 'BoxOperator') else None


def transcript(salt, count):
    import random
    ans = []
    for name, args in queries(random.Random(salt), count):
        _, prepare, call = build()[name]
        try:
            value = call(*prepare(*args))
            ans.append((name, args, text(value), canon(value)))
        except (AssertionError, IndexError, KeyError, TypeError, ValueError, AttributeError, ZeroDivisionError) as e:
            ans.append((name, args, None, ('raised', type(e).__name__)))
    return ans


if __name__ == '__main__':
    import pickle
    import sys
    from vmon import core
    core.import_code()
    sys.stdout.buffer.write(pickle.dumps(transcript(int(sys.argv[1]), int(sys.argv[2]))))
