"""One line per property: what decides an observation."""
ORACLE = {
    'A01': 'a dictionary from exponent tuples to integers with schoolbook arithmetic (`vmon/ring.py`), no library code.',
    'A02': 'the same dictionary model decides which polynomials are equal; the printed form is parsed by an independent parser.',
    'A03': 'a dictionary model of vectors; Gaussian elimination over the rationals for span membership and echelon forms.',
    'A04': 'a model mapping words (after the zero relations are applied by direct scan) to coefficients.',
    'A05': 'moving boxes of an explicit shifted diagram by its definition, extended linearly by the harness.',
    'A06': 'search over sets of boxes added to an explicit diagram.',
    'H01': 'the answer of the same call in a process that has computed nothing else; plus re-reading of earlier results.',
    'H02': 'structural snapshots (contents and hash) of every live object taken before and after each call.',
    'H03': 'byte-for-byte comparison of values and texts across processes with different `PYTHONHASHSEED` and memory layout.',
    'H04': 'the cell-by-cell definitions for every name; the documented outputs of the README program; permutations and diagrams by definition.',
    'I01': '0-Hecke products by letters, explicit enumeration of all increasing and standard set-valued fillings: the image is compared as a set and the counts must match.',
    'I02': 'Demazure conjugation of the minimal fixed-point-free involution, explicit enumeration of admissible pairs.',
    'I03': 'Demazure conjugation of the identity, explicit enumeration of admissible pairs.',
    'I04': 'Greene-style RSK shapes by independent row insertion; for shifted diagrams the orthogonal insertion whose correctness I03 decides independently.',
    'I05': 'invariants observed on input and image (letters, order relations of boxes, diagonal), decided from the cells alone.',
    'I06': 'the logged forward trace is the reference for the logged backward trace; state invariants from the definition of each machine.',
    'P01': 'one-line arithmetic, inversion counts and Demazure products in `vmon/perm.py`.',
    'P02': 'descent recursion on one-line tuples and direct filtering of all words of a length.',
    'P03': 'breadth-first search in the involution weak order by Demazure conjugation on one-line tuples.',
    'P04': 'breadth-first search from the minimal fixed-point-free involution; atoms as products of those words; atoms of larger elements by recursion through descents, itself checked against the definition (least length) in small ranks.',
    'P05': 'all words over the alphabet by length, filtered by their Demazure product and ascent/peak/descent bound.',
    'P06': 'a transfer computation over Demazure products evaluated modulo 2^61-1; a table of G and GP coefficients for Grassmannian shapes.',
    'P07': 'fibres of words of covers (from `vmon/perm.py`) as sets; descents compared letter by letter.',
    'P08': 'Bruhat order generated by transpositions that add one to the inversion count.',
    'P09': 'inversion counts, diagram cells and shapes straight from one-line notation.',
    'P10': 'direct search through all permutations; closed formulas for counts beyond.',
    'Q01': 'sequences of parts and sets of boxes; a parser that reads printed diagrams.',
    'Q02': 'search over subsets of boxes of explicit diagrams.',
    'S01': 'coefficient-by-coefficient counts of fillings (`ref.tableau_gf`); Jacobi-Trudi determinants, symmetrisation and a chain of one-letter pieces counted from the definition (up to seven variables, twenty boxes) modulo 2^61-1.',
    'S02': 'counts of set-valued fillings; the bialternant formula for G, the Ikeda-Naruse symmetrisation for GP, GQ and chains of one-letter pieces (also skew, and GS) modulo 2^61-1.',
    'S03': 'double-bar polynomials from their definition as sums over removed corners; the branching identity and chains of one-letter pieces at random points.',
    'S04': 'the cell-by-cell definition cut at the bound; for permutations, the truncation of the unbounded value judged by P06.',
    'S05': 'counts of (marked) reverse plane partitions; a ratio of determinants for larger g; chains of one-letter pieces for all of them at points modulo 2^61-1.',
    'S06': 'counts of bar tableaux, for larger shapes by chains of one-letter pieces; omega through Schur expansions computed by the harness.',
    'S07': 'the definitions of S01-S06 with beta replaced by minus beta.',
    'S08': 'the Cauchy kernel expanded degree by degree at random points modulo 2^61-1.',
    'S09': 'the random coefficients that built the polynomial; evaluation for changes of basis.',
    'S10': 'full (non-symmetric) exponent dictionaries multiplied out.',
    'S11': 'products of independently evaluated polynomials at enough random points modulo 2^61-1.',
    'S12': 'a backtracking search over labelings of the rim from the definition.',
    'T01': 'a backtracking search over fillings of the explicit set of boxes.',
    'T02': 'a backtracking search; weights by counting columns and rows.',
    'T03': 'tables of counts from the same independent search; the enumerated fillings tallied.',
    'T04': 'a dictionary from boxes to entries, edited alongside; an independent parser for the text.',
    'T05': 'the definitions on cells; expansions into fundamental quasisymmetric functions at random points.',
    'V01': 'direct listing of all valued-set tableaux by backtracking; bar-tableau generating functions; bijectivity observed on whole sets.',
    'V02': 'letters and groupings read straight from the two dictionaries the tableau was built from; a reader of the drawn picture.',
    'W01': 'bracketing with a stack; Schensted recording tableaux by an independent insertion.',
    'W02': 'listing by backtracking; string lengths against weights; Schur characters of components.',
    'W03': 'all cuts of a word; normality and characters of components by `vmon/crys.py`.',
    'W04': 'letter comparisons; the quasisymmetric function as an explicit sum over compositions.',
    'W05': 'a reader of the drawn picture that recovers the letters.',
}
