"""One entry per property: statement, quantifier, why tests cannot settle it, anchors."""
IN, HI, PR, CO = 'inputs', 'histories', 'programs', 'configurations'
P = {}


def add(pid, title, statement, over, text, why, files, mechanism, note=None):
    assert pid not in P and len(title) <= 80, (pid, len(title))
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, note=note)


SYM = ['symmetric.py', 'tableaux.py', 'partitions.py', 'polynomials.py']

add('S01', 'Schur, P-, Q- and S-polynomials equal their definitions',
    'For every number of variables and every pair of partitions (strict ones for P, Q and S), the returned symmetric polynomial is the weight generating function of the (skew) semistandard tableaux of its family. A skew shape whose inner partition is not inside the outer one gives zero.',
    [IN, HI], 'all n, all lambda and mu, called in any order in one process',
    'Tests compare a handful of shapes, mostly the library with itself; an error at one skew shape, one row overlap or one cached prefix goes unseen.',
    SYM, 'SymmetricPolynomial.schur, .schur_p, .schur_q, .schur_s and the recursive column-removal generator behind them')
add('S02', 'K-theoretic G, GP, GQ and GS polynomials equal their definitions',
    'For every number of variables and shapes, the K-theoretic polynomials G, GP, GQ and GS are the generating functions of set-valued (marked, shifted) tableaux in which each letter beyond one per box contributes a factor beta. Their values agree with the bialternant and symmetrised formulas at every point.',
    [IN, HI], 'all n, all lambda and mu, any order of calls',
    'Tests use small straight shapes and mostly cross-check two code paths that share the same recursion.',
    SYM, 'SymmetricPolynomial.stable_grothendieck, _p, _q, _s and the set-valued recursion over horizontal/vertical strips')
add('S03', 'Skew and double-bar polynomials satisfy the branching rules',
    'Splitting the variables of a straight or skew polynomial into two groups gives the sum over intermediate shapes of products of a polynomial and a double-bar skew polynomial, exactly. Undoing the double bar recovers the plain skew polynomial.',
    [IN, HI], 'all shapes, all splittings of the variables, any order of calls',
    'Branching is a statement about all intermediate shapes at once; tests look at isolated double-bar values.',
    SYM, 'the doublebar and undo variants of G, GP, GQ and s, P, Q')
add('S04', 'Degree bounds truncate, whatever was computed before',
    'Asking for a polynomial up to a degree bound gives exactly the terms of the full polynomial up to that degree. The answer does not depend on which bounded or unbounded requests were made earlier.',
    [IN, HI], 'all shapes, permutations and bounds, all histories of bounded and unbounded requests',
    'Results are cached under keys that may or may not include the bound; only mixed histories show a stale answer.',
    SYM + ['permutations.py', 'cached.py'], 'degree_bound arguments of stable Grothendieck polynomials and the caches behind them')
add('S05', 'Dual polynomials g, gp, gq and gs equal their definitions',
    'The dual polynomials g, gp, gq and gs of every (skew) shape are the generating functions of the corresponding (marked, shifted) reverse plane partitions, each lost letter contributing a factor minus beta. A shape whose inner partition is not inside the outer one gives zero.',
    [IN, HI], 'all n, all shapes, any order of calls',
    'Few skew shapes are sampled by tests, and none whose inner shape sticks out.',
    SYM, 'SymmetricPolynomial.dual_stable_grothendieck, _p, _q, _s')
add('S06', 'Transposed dual polynomials j, jp, jq and js equal their definitions',
    'The polynomials j, jp, jq and js of every (skew) shape are the generating functions of (marked, shifted) bar tableaux, and j of a shape is the involution omega applied to g of the conjugate shape up to the sign of beta.',
    [IN, HI], 'all n, all shapes, all values of the beta parameter, any order of calls',
    'Tests compare a few straight shapes; merging of bars across rows or columns fails only at particular shapes.',
    SYM, 'SymmetricPolynomial.slow_transposed_dual_stable_grothendieck, _p, _q, _s and omega_schur_expansion')
add('S07', 'The mn_ and mp_ variants are their namesakes at minus beta',
    'Each sign-variant of a polynomial family equals the plain family with beta replaced by minus beta, for the same arguments, and leaves the plain family untouched.',
    [IN, HI], 'all families, shapes and numbers of variables',
    'The variants share caches with their namesakes, so a missing key field shows only when both are requested in one process.',
    SYM, 'mn_* and mp_* methods')
add('S08', 'Dual families are dual under the Cauchy identities',
    'Each K-theoretic family and its dual satisfy the Cauchy identity: the sum over shapes of products of the two families in two sets of variables is the corresponding product kernel, in every degree.',
    [IN], 'all degrees and numbers of variables in both sets',
    'The identity ties every coefficient of both families together; tests check single members.',
    SYM, 'G against g, GP against gq, GQ against gp, s, P and Q')
add('S09', 'Basis expansions recover the coefficients that built the polynomial',
    'Expanding a combination of basis polynomials in that basis returns exactly the coefficients that built it, and the expansion of any symmetric polynomial rebuilds the polynomial when summed up to the requested degree.',
    [IN, HI], 'all finite combinations with integer or beta coefficients, all bases',
    'Tests expand single basis elements; cancellation and several leading terms of equal degree are not sampled.',
    SYM + ['vectors.py'], 'the *_expansion functions and the greedy elimination behind them')
add('S10', 'Symmetric polynomial arithmetic is polynomial arithmetic',
    'Sums, differences, products, scalar multiples, powers, truncation and comparison of symmetric polynomials agree with the same operations on ordinary polynomials after expansion into variables. Operands are never changed, and the printed form lists every term with its coefficient, graded and in order.',
    [IN, HI, PR], 'all expressions built from symmetric polynomials, monomials, integers and polynomials in beta',
    'The product of monomial symmetric functions is computed by an indirect cached rule; tests multiply a few pairs.',
    ['symmetric.py', 'polynomials.py', 'vectors.py'], 'SymmetricPolynomial and SymmetricMonomial operators')
add('S11', 'Pieri coefficients multiply the polynomials they describe',
    'Multiplying a (K-theoretic) P- or Q-type polynomial by a one-row polynomial gives the combination predicted by the Pieri coefficients, and the co-Pieri coefficients do the same for the dual families.',
    [IN], 'all strict shapes and all row lengths',
    'Coefficients are counted by tableau rules with many corner cases; tests check a few totals.',
    ['symmetric.py', 'tableaux.py', 'partitions.py'], 'the Pieri helper functions and KOG/KLG counts')
add('S12', 'KOG and KLG tableaux are exactly the defining labelings',
    'For every rim and alphabet size, the enumerated KOG and KLG tableaux are exactly the labelings that satisfy the defining conditions, each listed once, grouped under the right alphabet and shape.',
    [IN, HI], 'all strict shapes, all rims, all alphabet sizes',
    'Tests compare counts for small parameters; a wrong labeling can be compensated by a missing one.',
    ['tableaux.py', 'partitions.py'], 'Tableau.KOG, .KLG and their helpers')
add('T01', 'Tableau enumerators list every defining filling exactly once',
    'Each enumerator of tableaux (standard, semistandard, marked, shifted, set-valued, their combinations and skew forms) lists exactly the fillings that satisfy its definition, each exactly once, for every shape and largest entry.',
    [IN, HI], 'all shapes, skew shapes and alphabets, any order of calls',
    'Tests compare counts for a few shapes; caches shared between variants go wrong only in mixed histories.',
    ['tableaux.py', 'partitions.py'], 'Tableau.standard*, .semistandard* class methods')
add('T02', 'Reverse plane partitions are all listed, with the right weights',
    'The enumerators of reverse plane partitions and marked shifted reverse plane partitions list every filling with weakly increasing rows and columns once, and the weight of each counts columns (and rows, for primed letters) holding a letter. The excess of a reverse plane partition is the number of boxes that its weight does not count.',
    [IN], 'all shapes and alphabets', 'Tests check a few totals.', ['tableaux.py'], 'reverse plane partition enumerators and weights')
add('T03', 'Tableau counters agree with the fillings they count',
    'Every function that counts tableaux by weight returns the number of enumerated fillings of each weight, and what a caller does with a returned count never changes a later answer.',
    [IN, HI], 'all shapes, skew shapes and alphabets; all histories of calls and reads of the results',
    'Counters use their own recursion and caches; reading results in between is something tests never do.',
    ['tableaux.py', 'cached.py'], 'Tableau.count_* functions')
add('T04', 'Tableaux are immutable values that print and parse faithfully',
    'Every tableau operation returns a new tableau with exactly the documented boxes and leaves its argument unchanged; equal contents mean equal tableaux with equal hashes. Printed forms show every box at its place, aligned in columns.',
    [IN, HI, PR], 'all fillings and all sequences of operations',
    'Aliasing between a tableau and the one derived from it shows only when both are used afterwards.',
    ['tableaux.py'], 'Tableau constructors, add/remove/set/replace/transpose/shift operations and printing')
add('T05', 'Standardisation, descents, reading words and shape tests are correct',
    'Standardisation relabels letters in the defining order, the descents of standard tableaux give the fundamental expansions of s, P and Q, reading words determine their tableaux, and the semistandardness tests accept exactly the tableaux of the definition.',
    [IN], 'all fillings', 'Tests check single tableaux.', ['tableaux.py'], 'standardize, descent sets, reading words, is_* predicates')
add('I01', 'Hecke insertion is a bijection onto pairs of tableaux',
    'Inserting a word gives an increasing tableau with the same Hecke product and a recording (multi)set-valued tableau of the same shape with the given record; distinct inputs give distinct pairs, every valid pair arises, and inverse insertion returns the word and record. This holds in both recording conventions and whatever was inserted before; inadmissible records are refused.',
    [IN, HI], 'all words, all admissible records, both conventions, any order of calls',
    'Tests follow a few words; a bijection can fail at one pair out of thousands.',
    ['insertion.py', 'tableaux.py'], 'InsertionAlgorithm.hecke and .inverse_hecke')
add('I02', 'Symplectic Hecke insertion is a bijection onto pairs of shifted tableaux',
    'Symplectic Hecke words of a given length and alphabet correspond exactly, under insertion and inverse insertion, to pairs of an increasing shifted tableau whose row word has the same fixed-point-free involution and a set-valued marked shifted recording tableau without primes on the diagonal. Admissible records are carried through in both conventions, others are refused.',
    [IN, HI], 'all symplectic Hecke words, all admissible records',
    'Tests round-trip 200 words; surjectivity and records are checked on single examples.',
    ['insertion.py', 'tableaux.py'], 'InsertionAlgorithm.symplectic_hecke and its inverse')
add('I03', 'Orthogonal Hecke insertion is a bijection onto pairs of shifted tableaux',
    'All words of a given length and alphabet correspond exactly, under insertion and inverse insertion, to pairs of an increasing shifted tableau whose row word has the same involution and a set-valued marked shifted recording tableau without primes on the diagonal. Admissible records are carried through in both conventions, others are refused.',
    [IN, HI], 'all words, all admissible records', 'Tests follow one word.',
    ['insertion.py', 'tableaux.py'], 'InsertionAlgorithm.orthogonal_hecke and its inverse')
add('I04', 'Growth diagrams agree with insertion',
    'Each cell of the growth diagram of a nonnegative integer matrix is the RSK shape of the part of the matrix below and left of it. The tableaux read off the shifted growth diagram of any word are those of orthogonal Hecke insertion, and every inner corner is the shape of the restricted word.',
    [IN], 'all matrices and words', 'The local rule has fifteen cases, several reached only by unreduced words that the tests do not use.',
    ['partitions.py', 'tableaux.py', 'insertion.py'], 'Partition.growth_diagram, .shifted_growth_diagram, Tableau.from_shifted_growth_diagram')
add('I05', 'Unpriming the diagonal gives semistandard tableaux with legal diagonals',
    'Moving primes off the diagonal of a set-valued marked shifted tableau keeps every letter up to its prime, gives a semistandard tableau with the same number of rows, none shorter, leaves no diagonal box mixing letters illegally (other than a single prime on its largest letter), and leaves tableaux whose diagonal is already legal unchanged.',
    [IN], 'all semistandard set-valued marked shifted tableaux', 'The tests only print collisions for one shape.',
    ['insertion.py', 'tableaux.py'], 'InsertionAlgorithm.unprime_diagonal and the set-valued column insertion it uses')
add('I06', 'Insertion steps can be traced and run backwards exactly',
    'Every bumping step of Hecke and symplectic Hecke insertion changes at most one box, which is the one it reports, and leaves an increasing tableau of partition shape with at most one outer box. Running the inverse steps from the recorded letter revisits the same states in reverse order, and inserting a word at once, letter by letter or in several pieces gives the same pair.',
    [IN, HI], 'all words, all ways of splitting an insertion into calls', 'Tests pin the states of two insertions; the invariant speaks about every step of every insertion.',
    ['insertion.py', 'tableaux.py'], 'HState and FState: add, next, previous, path, insert, pop and insertion_tableaux with p and q')
add('P01', 'Permutations form the (signed) symmetric group with its Coxeter structure',
    'Products, inverses, powers, lengths, descents, Demazure products, cycles and the named elements agree with arithmetic on one-line notation for signed and unsigned permutations. Equality, hashing and the lexicographic order ignore trailing fixed points.',
    [IN, PR], 'all (signed) permutations and all products of them', 'Tests sample tiny groups.',
    ['permutations.py'], 'Permutation operators and properties')
add('P02', 'Reduced words and Hecke words of permutations are exactly enumerated',
    'The reduced words of every (signed) permutation, and its Hecke words within any length and ascent bounds, are listed exactly once each and completely. Stopping, resuming or interleaving enumerations changes nothing.',
    [IN, HI], 'all permutations and bounds, all histories of partial enumerations', 'Tests look at totals for complete single enumerations.',
    ['permutations.py', 'words.py'], 'get_reduced_words, get_hecke_words and their caches')
add('P03', 'Involution words and atoms of involutions are exactly enumerated',
    'The involution words and atoms of every (signed) involution are listed exactly once each and completely, are consistent with each other and have the common length given by the involution length. Stopping or resuming enumerations changes nothing.',
    [IN, HI], 'all (signed) involutions, all histories', 'Tests count words for a few involutions.',
    ['permutations.py'], 'get_involution_words, get_atoms, get_atoms_d, get_min_atom')
add('P04', 'Fixed-point-free involution words and atoms are exactly enumerated',
    'The words and atoms of every fixed-point-free involution are listed exactly once each and completely, whatever trailing two-cycles its presentation has.',
    [IN, HI], 'all fixed-point-free involutions, all histories', 'Tests count words for a few involutions.',
    ['permutations.py'], 'get_fpf_involution_words, get_fpf_atoms')
add('P10', 'Enumerations of permutations and involutions list everything once',
    'The enumerations of (signed) permutations, (signed) involutions and fixed-point-free involutions of a given rank list every member exactly once and nothing else, also when several run together.',
    [IN, HI], 'all ranks', 'Tests check a few counts.', ['permutations.py'], 'Permutation.all, .involutions, .fpf_involutions')
add('P05', 'Levels of Hecke words are complete under every bound and interleaving',
    'Each level of an enumeration of Hecke words (ordinary, symplectic or orthogonal, signed or not) is exactly the set of words of that length for the given element, within the ascent and length bounds asked for. Several enumerations may be advanced in any interleaving, or abandoned, without changing any of them.',
    [IN, HI], 'all elements, bounds and interleavings of enumerations',
    'Levels are kept in shared caches while generators are suspended; tests run one enumeration to its end.',
    ['permutations.py'], 'get_hecke_words, get_symplectic_hecke_words, get_orthogonal_hecke_words and their level caches')
add('P06', 'Grothendieck functions of permutations and involutions equal their definitions',
    'The stable Grothendieck, Stanley and involution Grothendieck functions of every permutation, involution and fixed-point-free involution equal the weighted sums over factorisations of Hecke words, and Grassmannian elements give G, GP and GQ of their shape.',
    [IN], 'all permutations and involutions, every number of variables and degree bound',
    'Tests check a few expansions.', ['permutations.py', 'words.py', 'symmetric.py'], 'stable_grothendieck, symplectic and signed involution variants of Permutation')
add('P07', 'Little bumps are descent-preserving bijections between words of covers',
    'The ordinary, involution and fixed-point-free Little bumps map the words of the covers on one side of an element bijectively onto the words of the covers on the other side, keep descents and recording tableaux, and are inverted by pushing the other way. Words that do not lie above the element stay as they are.',
    [IN], 'all words of all elements and all positions', 'Tests follow single bumps.', ['permutations.py', 'insertion.py'], 'get_little_bumping_path style methods: little_push, involution_little_push, fpf_involution_little_push')
add('P08', 'Bruhat covers and transitions are exactly the covers of each order',
    'The Bruhat covers of (signed) permutations, involutions and fixed-point-free involutions are exactly the elements one step below in the order, and the transition indices at a position are exactly those that give a cover.',
    [IN], 'all (signed) permutations and involutions, all positions', 'Tests look at single elements.',
    ['permutations.py'], 'bruhat_covers, involution_bruhat_covers, fpf_involution_bruhat_covers, upper/lower transitions, tau')
add('P09', 'Codes, shapes, Rothe diagrams and Grassmannian elements fit together',
    'Codes, involution codes, Rothe diagrams and shapes count inversions as defined; Grassmannian elements of a shape have that shape and are recognised as Grassmannian; the lists of Grassmannian elements contain each once. Permutations with no single descent, or not involutions, are never called Grassmannian.',
    [IN], 'all permutations and involutions, all shapes in a box or staircase', 'Tests check a few codes and counts.',
    ['permutations.py'], 'code, involution_code, fpf_involution_code, rothe_diagram, shapes, get_*grassmannian, is_*grassmannian')
add('W01', 'Crystal operators on words follow the bracketing rule',
    'The raising and lowering operators on words and on sequences of words change the letter chosen by the bracketing rule, are inverse to each other, and keep the lengths of the pieces. They keep the recording tableau of the concatenated word.',
    [IN], 'all words, all ways to cut them, all indices', 'Tests apply the operators to a few words.',
    ['words.py'], 'Word.f_crystal_operator, Word.e_crystal_operator')
add('W02', 'Crystal operators make the tableaux of a shape a normal crystal',
    'The crystal operators on set-valued and multiset-valued semistandard tableaux stay inside the tableaux of the shape, are inverse to each other, and make them a normal crystal whose components are Schur positive. Crystal generators list exactly these elements, edges, strings and components and draw them.',
    [IN], 'all shapes, entries and indices', 'Tests check isolated tableaux and small shapes.',
    ['tableaux.py', 'crystals.py'], 'Tableau.f_crystal_operator, Tableau.e_crystal_operator, TableauCrystalGenerator, CrystalMixin')
add('W03', 'Crystals of factorizations and of shifted tableaux are complete and normal',
    'The increasing (or decreasing) factorizations of a word into a number of factors are listed completely and once. The crystals on factorizations of Hecke words and on shifted tableaux have exactly the right elements, and their operators form normal crystals compatible with insertion.',
    [IN], 'all permutations, shapes, ranks and lengths', 'Tests build a few small crystals.',
    ['crystals.py', 'insertion.py'], 'WordCrystalGenerator, ShiftedCrystalGenerator and its subclasses')
add('W04', 'Characters of words and their quasisymmetric functions are right',
    'The increasing, decreasing, unimodal and weak characters of words, and the quasisymmetric functions they induce, equal their definitions by comparing neighbouring letters. Descents, ascents and peaks are where the definitions put them.',
    [IN], 'all words', 'Tests look at a few words.', ['words.py'], 'Word.*_zeta, Word.quasisymmetrize, descent_set, ascents, peaks')
add('W05', 'Wiring diagrams show the letters of the word in order',
    'Reading the crossings of the wiring diagram of a word gives the word back, with every wire and label at its place. In involution and fixed-point-free diagrams the letters that commute with the involution so far are drawn differently from the others.',
    [IN], 'all words, with and without labels', 'Tests only print diagrams.', ['words.py'], 'Word.wiring_diagram and its involution variants')
add('V01', 'The transition of valued-set tableaux is a weight-swapping involution',
    'The valued-set tableaux of every (skew) shifted shape are listed completely and once. The transition at an index is an involution on them that swaps two adjacent weights and keeps all other letters and the number of primes on the diagonal, and its intermediate steps are bijections.',
    [IN, HI], 'all strict shapes and entries', 'Tests check small straight shapes.',
    ['vst.py'], 'ValuedSetTableau.all, transition, forward_transition, middle_transition, backward_transition')
add('V02', 'Groups, weights and drawings of valued-set tableaux are read off correctly',
    'For every filling of a (skew) shifted shape with groups of equal neighbours, the queries for group ends, neighbours in one group, singletons, runs of a letter, weight, primes, bends and semistandardness agree with the boxes and groups. Unpriming changes exactly the singletons asked for, and the drawing shows every entry and exactly the walls between different groups; several tableaux drawn together stand side by side unchanged.',
    [IN], 'all fillings and groupings of all shifted shapes', 'Tests never call most of the queries and look at no drawing.',
    ['vst.py'], 'ValuedSetTableau queries, unprime, unprime_diagonal and __repr__')
add('A01', 'Polynomials form the ring of integer Laurent polynomials',
    'Sums, products, powers, negation, formal-group operations, coefficients, truncation, division by linear forms, evaluation and substitution of polynomials agree with integer Laurent polynomials. No operation changes a polynomial computed earlier.',
    [IN, PR], 'all polynomials and programs of operations', 'Tests use polynomials as coefficients only.', ['polynomials.py'], 'Polynomial')
add('A02', 'Equal polynomials compare, hash and print alike, different ones do not',
    'Polynomials that are equal compare equal, hash alike and print alike however they were built, and are equal to integers exactly when they are constant. Different polynomials compare different and print differently, and one is greater than another when every coefficient of the difference is positive.',
    [IN, PR], 'all polynomials and all ways to build them', 'Tests build each polynomial in one way.', ['polynomials.py'], 'Polynomial.__eq__, __hash__, __repr__, HashableDict')
add('A03', 'Vectors form a module with products, and span tests are exact',
    'Sums, differences, multiples and products of vectors agree with finite formal sums over any keys, with integer and polynomial coefficients, and equal vectors hash alike. Tests for membership in a span and reduced echelon forms agree with exact rational linear algebra.',
    [IN, PR], 'all vectors, coefficients and matrices', 'Tests reduce a few matrices.', ['vectors.py'], 'Vector arithmetic, Vector.is_expressable, Vector.rref')
add('A04', 'Box operators multiply as words with the zero relations',
    'Box operators form an associative algebra spanned by words in which equal or opposite neighbours give zero, with degrees of beta adding up. The filter keeps exactly the words with few enough repeated letters, and the commutator of the generating operators is the difference of their two products.',
    [IN, PR], 'all sums and products of box operators', 'Tests print a few products.', ['boxes.py', 'vectors.py'], 'BoxOperator')
add('A05', 'Operators adding and removing boxes of shifted shapes act as defined',
    'The operators that add a box on a diagonal or remove row or column strips of shifted shapes act on every strict partition as defined by its diagram and extend linearly to vectors with polynomial coefficients. The generating operators are the ordered products of the single ones.',
    [IN, PR], 'all strict partitions, vectors and indices', 'Tests compare operators with each other on small shapes.', ['operators.py'], 'operator_shifted_add, operator_AL, operator_AR, operator_R, operator_C, row and column removal')
add('A06', 'Strip operators add exactly the one-row and one-column shifted strips',
    'The horizontal and vertical strip operators add to every strict partition exactly the boxes of one row or one column on the given diagonals whenever that gives a shifted shape, and are undefined otherwise.',
    [IN], 'all strict partitions and diagonal intervals', 'Tests compose a few operators.', ['dualops.py'], 'sh_horizontal_strip, sh_vertical_strip')
add('Q01', 'Partitions are enumerated, compared and converted as sets of boxes',
    'Enumerations of partitions with any bounds on parts, rows, strictness and parity, of partitions between two shapes, and of compositions list each object once and nothing else. Containment, union, transposition, skew shapes, their normal forms and printed diagrams agree with sets of boxes.',
    [IN, HI], 'all partitions and bounds, all interleavings of enumerations', 'Tests check few totals.', ['partitions.py'], 'Partition.all, generate, subpartitions, successors, skew, skew_key, from_skew, printable')
add('Q02', 'Corners, strips, ribbons and rims of strict partitions are complete',
    'The addable and removable corners of (strict) partitions, the shapes left by removing vertical strips, rims or corners, the rims that can be added within a first-row bound, shifted ribbons and staircase complements are exactly those the diagrams allow, each listed once.',
    [IN, HI], 'all strict partitions, bounds and interleavings of enumerations', 'Tests check a few shapes.', ['partitions.py'], 'find_shifted_*_corner, decompose_shifted_shape_by_*, rims, shifted_ribbons, decrement_strict, complement')
add('H01', 'Results do not depend on what was computed before',
    'Every call gives the same value in a process that has computed nothing else and in one with any history of other calls, repeated calls, and enumerations that are suspended, resumed or abandoned. Results obtained earlier still have the same value when read later.',
    [HI], 'all histories of calls', 'Tests run each call in one order in one process; the caches behind nearly every function make stale or partial answers possible.',
    ['cached.py', 'symmetric.py', 'tableaux.py', 'permutations.py', 'partitions.py'], 'cached_value and the module-level caches')
add('H02', 'No call changes its arguments or values handed out earlier',
    'Polynomials, vectors, tableaux, permutations, lists, sets and dictionaries passed to any call are the same afterwards, and so are their hashes. No call changes a value returned by an earlier one.',
    [HI, PR], 'all programs of calls', 'Tests do not read arguments again.', ['symmetric.py', 'tableaux.py', 'permutations.py', 'polynomials.py', 'vectors.py'],
    'immutable-by-convention value classes: Polynomial, Vector, Tableau, Permutation')
add('H03', 'Results and printed forms are the same in every process',
    'The same calls give the same values, and polynomials, vectors, tableaux and permutations the same printed text, in processes with different hash seeds and memory layouts.',
    [CO], 'all hash seeds', 'Tests run with one hash seed.', ['polynomials.py', 'vectors.py', 'tableaux.py', 'symmetric.py'], 'sorted printing and hash-independent keys')
add('H04', 'The documented short names compute what the documentation says',
    'Every short name that the user module offers for a polynomial, a double-bar or signed variant, or an expansion computes that polynomial or expansion for partitions, and the ones that accept permutations compute their Grothendieck functions. The program in the README runs and every statement has the value its comment says.',
    [IN], 'all names, shapes, permutations and degree bounds', 'Tests only run the statements without looking at the values.', ['utils.py', 'README.md'], 'utils aliases')
