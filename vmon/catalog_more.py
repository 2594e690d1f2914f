"""Further entries of the catalogue of calls: the rest of the public functions."""


def build(entry, pair):
    from symmetric import SymmetricPolynomial as S
    from permutations import Permutation as W
    from partitions import Partition as Q
    from tableaux import Tableau as T
    from insertion import InsertionAlgorithm as I
    from words import Word
    from vectors import Vector
    from vst import ValuedSetTableau as V
    from boxes import BoxOperator
    import crystals as C
    import dualops as D
    import utils as U
    from .catalog import strict, part, under, perm, signed, involution, word, P, tableau, attempt

    # partitions
    def two(is_strict, size=6):
        def make(rng):
            mu = (strict if is_strict else part)(rng, size)
            return mu, under(rng, mu, is_strict)
        return make
    for f, is_strict in (('skew', 0), ('skew', 1), ('skew_key', 0), ('skew_key', 1), ('printable', 0), ('printable', 1)):
        entry('Partition.%s%s' % (f, ', shifted' * is_strict), two(is_strict), lambda mu, nu, f=f, s=bool(is_strict): getattr(Q, f)(mu, nu, shifted=s))
    for f in ('merge_shifted',):
        entry('Partition.' + f, two(1), lambda mu, nu, s: (Q.merge_shifted(nu, s), s), lambda mu, nu: (mu, nu, Q.skew(mu, nu, shifted=True)))
    entry('Partition.from_shape', lambda rng: (part(rng, 7),), Q.from_shape, lambda mu: (Q.shape(mu),))
    entry('Partition.union', lambda rng: (part(rng, 6), part(rng, 6)), lambda a, b: (Q.union(a, b), Q.contains(a, b)))
    entry('Partition.successors', lambda rng: (strict(rng, 7), rng.random() < .5), lambda mu, s: list(Q.successors(mu, s)))
    entry('Partition.complement', lambda rng: (lambda mu: (len(mu) + (mu[0] if mu else 0), mu))(strict(rng, 6)), Q.complement)
    for f in ('compositions', 'peak_compositions', 'shifted_ribbons'):
        entry('Partition.' + f, lambda rng: (rng.randrange(0, 5),), getattr(Q, f))
    entry('Partition.shifted_ribbon', lambda rng: (tuple(rng.randrange(1, 4) for _ in range(rng.randrange(0, 4))),),
          lambda a: (Q.shifted_ribbon(a), attempt(U.shifted_ribbon, a)))
    entry('Partition.shifted_ribbon_complements', lambda rng: (strict(rng, 7),), Q.shifted_ribbon_complements)
    entry('Partition.decrement_one', lambda rng: (strict(rng, 7),), lambda mu: Q.decrement_one(mu) if mu else None)
    entry('Partition.rim_terminal_part', lambda rng: (lambda mu: (mu, rng.randrange(20)))(strict(rng, 7)),
          lambda mu, k: (lambda rims: [Q.rim_terminal_part(r) for r in rims])(list(Q.rims(mu, 2))))
    entry('Partition.add_box', lambda rng: (strict(rng, 6), rng.randrange(1, 5)),
          lambda mu, i: (attempt(Q.add_box_to_row, mu, i), attempt(Q.add_box_to_column, mu, i, True)))
    entry('Partition.corners', lambda rng: (strict(rng, 7),),
          lambda mu: (Q.remove_inner_corner, [attempt(f, mu) for f in (Q.is_strict_partition, Q.is_partition)])[1:])
    entry('Partition.shifted_growth_diagram', lambda rng: (perm(rng, rng.randrange(1, 6)),),
          lambda w: (lambda g, e, c, *_: (list(map(tuple, g)), e, c, T.from_shifted_growth_diagram(g, e, c)))(*Q.shifted_growth_diagram(w)))

    # symmetric functions
    for f, is_strict in (('schur', 0), ('schur_s', 0), ('schur_q', 1), ('schur_p', 1), ('stable_grothendieck', 0), ('stable_grothendieck_p', 1),
                         ('stable_grothendieck_q', 1), ('stable_grothendieck_s', 0), ('dual_stable_grothendieck', 0),
                         ('dual_stable_grothendieck_p', 1), ('dual_stable_grothendieck_q', 1)):
        entry('slow ' + f, lambda rng, p=pair(is_strict, 3): (rng.randrange(1, 3),) + p(rng), getattr(S, '_slow_' + f))
    for f in ('p', 'q'):
        entry('slow refined ' + f, lambda rng, p=pair(1, 3): (rng.randrange(1, 3),) + p(rng), getattr(S, '_slow_refined_dual_stable_grothendieck_' + f))
    for f, is_strict in (('mp_dual_stable_grothendieck_q', 1), ('mn_stable_grothendieck_p', 1)):
        entry(f, lambda rng, p=pair(1, 3): (rng.randrange(1, 4),) + p(rng), getattr(S, f))
    for base, exp, is_strict in (('mn_stable_grothendieck', 'mn_grothendieck_expansion', 0), ('mp_dual_stable_grothendieck', 'mp_dual_grothendieck_expansion', 0),
                                 ('slow_transposed_dual_stable_grothendieck', 'j_expansion', 0), ('mp_dual_stable_grothendieck_p', 'mp_gp_expansion', 1),
                                 ('mp_dual_stable_grothendieck_q', 'mp_gq_expansion', 1), ('slow_transposed_dual_stable_grothendieck_q', 'jq_expansion', 1),
                                 ('mn_stable_grothendieck_p', 'mn_GP_expansion', 1), ('mn_stable_grothendieck_q', 'mn_GQ_expansion', 1),
                                 ('schur_p', 'P_expansion', 1), ('schur_q', 'Q_expansion', 1), ('schur_q', 'P_expansion', 1),
                                 ('dual_stable_grothendieck_p', 'gp_free_expansion', 1)):
        entry('%s of %s' % (exp, base), lambda rng, d=is_strict: (lambda mu: (sum(mu), mu))((strict if d else part)(rng, 3)),
              getattr(S, exp), lambda n, mu, b=base: (getattr(S, b)(n, mu),))
    for f, is_strict in (('grothendieck', 0), ('grothendieck_Q', 1), ('grothendieck_P', 1), ('grothendieck_S', 0)):
        entry('utils.' + f, lambda rng, p=pair(is_strict, 3): (rng.randrange(1, 3),) + p(rng) + (rng.choice((None, 3, 4)),), getattr(U, f))
    entry('symmetric arithmetic', lambda rng: (rng.randrange(1, 4), part(rng, 3), part(rng, 3), rng.randrange(-3, 4)),
          lambda f, g, k: (f * k, k * f, f + 0, f - g, -f, f == g, f == 0, hash(f) == hash(f + 0), len(f), sorted(map(repr, f))),
          lambda n, a, b, k: (S.schur(n, a), S.stable_grothendieck(n, b), k))

    # permutations
    def simple(m):
        def call(w):
            v = getattr(w, m)
            return v() if callable(v) and not isinstance(v, W) else v
        return call
    for m in ('oneline_repr', 'cycle_repr', 'tex', 'is_identity', 'reduced_word', 'reduced_words', 'star'):
        entry('permutation.' + m, lambda rng: (perm(rng, rng.randrange(1, 5)),), simple(m), lambda w: (P(w),))
    for m in ('involution_rothe_diagram', 'is_inv_grassmannian', 'involution_word', 'involution_words'):
        entry('involution.' + m, lambda rng: (involution(rng, rng.randrange(1, 5)),), simple(m), lambda w: (P(w),))
    for m in ('fpf_rothe_diagram', 'fpf_involution_word', 'fpf_involution_words'):
        entry('fpf.' + m, lambda rng: (involution(rng, rng.choice((2, 4)), fpf=True),), simple(m), lambda w: (P(w),))
    for name in ('grassmannians', 'inv_grassmannians', 'fpf_grassmannians'):
        entry('Permutation.' + name, lambda rng: (rng.choice((2, 4)),), getattr(W, name))
    entry('signed involution.stable_grothendieck', lambda rng: (involution(rng, 2, sign=True), rng.randrange(1, 3), 3),
          lambda w, n, d: w.signed_involution_stable_grothendieck(n, d), lambda w, n, d: (P(w), n, d))
    for k in ('upper', 'lower'):
        entry(k + ' transitions', lambda rng: (perm(rng, 4), rng.randrange(1, 5)), lambda w, r, k=k: getattr(w, k + '_transitions')(r),
              lambda w, r: (P(w), r))
        entry(k + ' involution transitions', lambda rng: (involution(rng, 4), rng.randrange(1, 5)),
              lambda w, r, k=k: getattr(w, k + '_involution_transitions')(r), lambda w, r: (P(w), r))
        entry(k + ' fpf transitions', lambda rng: (involution(rng, rng.choice((2, 4)), fpf=True), rng.randrange(1, 5)),
              lambda w, r, k=k: getattr(w, k + '_fpf_involution_transitions')(r), lambda w, r: (P(w), r))
    entry('tau', lambda rng: (involution(rng, 4), rng.randrange(1, 4), rng.randrange(1, 3)), lambda w, i, j: w.tau(i, i + j), lambda w, i, j: (P(w), i, j))
    entry('Permutation.cycle', lambda rng: perm(rng, rng.randrange(1, 5)), lambda *a: (W.cycle(*a), W.reflection_s(min(a), max(a))))

    def fpf_bump(w):
        out = []
        for a in sorted(w.get_fpf_involution_words())[:2]:
            for i in range(1, w.rank):
                out.append(attempt(W.fpf_involution_little_bump, a, i, i + 1))
                out.append(attempt(W.fpf_involution_little_bump, a, i, i + 2))
        return out
    entry('Permutation.fpf_involution_little_bump', lambda rng: (involution(rng, 4, fpf=True),), fpf_bump, lambda w: (P(w),))

    # tableaux
    for f, is_strict in (('semistandard_shifted_rpp', 1), ('semistandard_marked_setvalued', 0), ('semistandard_shifted_setvalued', 1)):
        entry('Tableau.' + f, lambda rng, p=pair(is_strict, 4): (rng.randrange(0, 3),) + p(rng), getattr(T, f))
    entry('copieri', lambda rng: (lambda mu: (mu, under(rng, mu, True), rng.random() < .5))(strict(rng, 6)),
          lambda nu, lam, d: T.shifted_setvalued_copieri(nu, lam, d))
    for k in ('KOG', 'KLG'):
        for f in ('', '_by_shape', '_counts_by_shape'):
            entry(k + f, lambda rng: (rng.randrange(0, 4), strict(rng, 5)), getattr(T, k + f))
        entry(k + '_counts', lambda rng: (lambda mu: (mu, rng.randrange(0, 4), rng.randrange(30)))(strict(rng, 5)),
              lambda mu, p, j, k=k: (lambda nus: getattr(T, k + '_counts')(nus[j % len(nus)], mu, p))(
                  sorted({T._add_rim(mu, r) for r in Q.rims(mu, 3)})))
    for f in ('_horizontal_strips', '_vertical_strips', '_rpp_horizontal_strips', '_rpp_vertical_strips', '_shifted_horizontal_strips',
              '_shifted_vertical_strips'):
        entry('Tableau.' + f, two('shifted' in f), lambda mu, nu, f=f: list(getattr(T, f)(nu, mu)))
    for f in ('_shifted_rpp_horizontal_strips', '_shifted_rpp_vertical_strips'):
        entry('Tableau.' + f, lambda rng: (strict(rng, 7),), lambda mu, f=f: list(getattr(T, f)(mu)))

    def filled(rng, top=4):
        mu = part(rng, 6)
        cells = {}
        for i, a in enumerate(mu):
            for j in range(a):
                cells[i + 1, j + 1] = tuple(sorted({rng.randrange(1, top) * rng.choice((1, 1, -1)) for _ in range(rng.choice((1, 1, 2)))}))
        return tuple(sorted(cells.items())),
    for m in ('size', 'abs_sum', 'is_standard', 'is_shifted_column_superstandard', 'serialize', 'setvalued_excess', 'rpp_excess',
              'tex', '__repr__', 'row_reading_word', 'string_array', 'standardize', 'transpose', 'weight', 'shape'):
        entry('filling.' + m, filled, simple(m), lambda *f: (tableau(f[0]),))
    entry('filling queries', lambda rng: filled(rng) + (rng.randrange(1, 4), rng.randrange(1, 4)),
          lambda t, i, j: (t.last_box_in_row(i), t.last_box_in_column(j), t.contains_box(i, j), t == t, t < t), lambda f, i, j: (tableau(f), i, j))
    entry('Tableau.from_row_reading_word', lambda rng: (word(rng),), T.from_row_reading_word)
    entry('Tableau.decode_string_input', filled, lambda s: (T.decode_string_input(s), T(s)),
          lambda f: (';'.join(' '.join(','.join(str(abs(x)) + "'" * (x < 0) for x in v) for (i, j), v in f if i == r)
                              for r in range(1, max([0] + [i for (i, _), _ in f]) + 1)),))
    entry('tableau crystal operators', lambda rng: (part(rng, 4), rng.randrange(1, 3), rng.randrange(40)),
          lambda ts, i, j: [(t.f_crystal_operator(i, multisetvalued=False), t.e_crystal_operator(i, multisetvalued=False)) for t in ts[:4]],
          lambda mu, i, j: (sorted(T.semistandard_setvalued(3, mu), key=repr)[j:] or [T()], i, j))

    # insertion and words
    entry('unprime_diagonal', lambda rng: (tuple(rng.randrange(1, 4) for _ in range(5)), rng.randrange(32)),
          lambda w, q: (I.unprime_diagonal(q), q),
          lambda w, k: (w, (lambda q: T({b: tuple(-x if (k >> n) % 2 and b[0] == b[1] else x for n, x in enumerate(v)) for b, v in q.boxes.items()}))(
              I.orthogonal_hecke(w)[1])))
    entry('inverse_symplectic_hecke', lambda rng: (tuple(2 + a for a in word(rng, 3)),),
          lambda w: I.inverse_symplectic_hecke(*I.symplectic_hecke(w)) if w and w[0] % 2 == 0 else None)
    entry('orthogonal_hecke, recorded', lambda rng: ([1, 1, 2, 2][:4], [rng.randrange(1, 4) for _ in range(4)]),
          lambda r, w: I.orthogonal_hecke(w, r, multisetvalued=False), lambda k, w: ([1 + sum(w[j] >= w[j - 1] for j in range(1, i + 1)) for i in range(4)], w))
    for f in ('wiring_diagram', 'involution_wiring_diagram', 'fpf_involution_wiring_diagram'):
        entry('Word.' + f, lambda rng: (word(rng, 4),), getattr(Word, f))
    for f in ('weakly_increasing_zeta', 'weakly_decreasing_zeta', 'right_weakly_unimodal_zeta', 'left_weakly_unimodal_zeta', 'weakly_unimodal_zeta'):
        entry('Word.' + f, lambda rng: (word(rng, 3, 5),), lambda w, f=f: (getattr(Word, f)(w), Word.quasisymmetrize(w, getattr(Word, f))))

    # vectors, boxes, dual operators
    entry('Vector.rref', lambda rng: ([[rng.randrange(-2, 3) for _ in range(3)] for _ in range(3)],), lambda m: (Vector.rref(m), m))
    entry('vector queries', lambda rng: (tuple(sorted({strict(rng, 4): rng.randrange(-3, 4) for _ in range(3)}.items())), rng.randrange(1, 4)),
          lambda v, k: (repr(v), len(v), v.is_singleton(), v.is_nonnegative(), v.is_positive(), (v * k) // k, hash(v) == hash(v * 1), sorted(v.values()),
                        v.is_expressable(v, v * 2)), lambda v, k: (Vector(dict(v)), k))
    entry('BoxOperator', lambda rng: (tuple(rng.randrange(-2, 3) for _ in range(rng.randrange(0, 4))), tuple(rng.randrange(-2, 3) for _ in range(rng.randrange(0, 3))),
                                      rng.randrange(1, 4)),
          lambda a, b, n: (a * b, a + b, a - b, -a, a == b, (a * b).filter(n), repr(a)), lambda a, b, n: (BoxOperator(0, *a), BoxOperator(1, *b), n))
    entry('dual operators', lambda rng: (strict(rng, 6), rng.randrange(0, 3), rng.randrange(0, 3)),
          lambda mu, a, k: (D.sh_horizontal_strip(a, a + k)(mu), D.sh_vertical_strip(a, a + k)(mu)))

    # valued-set tableaux
    def valued(rng):
        mu = strict(rng, 5)
        v = rng.randrange(1, 4)
        cells = [(i + 1, i + j + 1) for i, a in enumerate(mu) for j in range(a)]
        letters = [rng.choice((v, -v, v + 1, -v - 1, v, v + 2)) for _ in cells]
        if rng.random() < .7:       # mostly semistandard ones, from the enumeration
            return mu, v, rng.randrange(10 ** 6), None
        return mu, v, 0, tuple(zip(cells, letters))

    def made(mu, v, k, cells):
        if cells is not None:
            return V(dict(cells), {b: 0 for b, _ in cells}), v
        every = sorted(V.all(2, mu), key=repr)
        t = every[k % len(every)]
        up = v - 1 if k % 3 else 0
        return V({b: tuple((abs(x) + up) * (-1 if x < 0 else 1) for x in y)[0] for b, y in t.tableau.boxes.items()}, t.grouping), (v if k % 3 else 1)
    for m in ('transition', 'forward_transition', 'middle_transition', 'backward_transition'):
        entry('valued.' + m, valued, lambda t, v, m=m: getattr(t, m)(v), made)
    for m in ('is_highest_weight', 'unprime', 'unprime_diagonal', 'diagonal_primes', 'singletons', 'diagonal_singletons', 'primed_groups',
              'is_semistandard', '__repr__'):
        entry('valued.' + m, valued, lambda t, v, m=m: simple(m)(t), made)
    entry('valued.weight', valued, lambda t, v: t.weight(8), made)
    entry('valued.all_interstandard', lambda rng: (strict(rng, 3),), lambda mu: list(V.all_interstandard(mu)) if mu else None)

    # crystals
    entry('crystal labels', lambda rng: (part(rng, 3), rng.randrange(1, 3)),
          lambda mu, n: (lambda c: [c.node_label(i) for i in range(len(c))])(C.TableauCrystalGenerator(mu, n)))
