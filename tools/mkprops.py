import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','Polynomial arithmetic is exact integer Laurent-polynomial arithmetic',
  'For all Laurent polynomials with integer coefficients (built from variables, integers and these same operations), sum, difference, negation, product, non-negative powers, negative powers of single terms with coefficient 1 or -1, coefficient extraction, truncation by degree, and reduction or exact/floor division by an integer return the mathematically correct polynomial. The result has no zero coefficient and no variable with exponent zero, and the operands are left unchanged.',
  ['inputs'],'all polynomials in any number of variables (including the negative-index ones), all integer coefficients, all exponents',
  'The tests multiply a handful of two- or three-term polynomials; cancellation, negative exponents and variables present in only one factor are a product space no sample covers.',
  ['polynomials.py'],[('term-by-term sums that drop zero coefficients','polynomials.py Polynomial.__add__, __mul__'),('exponent merging that drops zero exponents','polynomials.py Polynomial.__mul__'),('inverse of a unit monomial','polynomials.py Polynomial.__pow__')],
  ['the coefficient of every monomial of the result'],[('coeffs','finite map from monomials (variable -> non-zero exponent) to non-zero integers','Polynomial.coeffs')])
p('C02','Equal values compare equal and hash equal, however they were built',
  'Two polynomials, two vectors, two tableaux or two permutations (or a polynomial and an integer) that denote the same mathematical object compare equal, whatever sequence of operations produced them; polynomials, tableaux and permutations that compare equal also hash equally and find each other as dictionary keys. Objects of the same kind that denote different mathematical objects compare unequal.',
  ['inputs','histories'],'all pairs of values of the same type (and polynomials against integers), all orders in which they were built',
  'Tests compare values built in one way; a hash that depends on construction order only fails for particular pairs.',
  ['polynomials.py','vectors.py','tableaux.py','permutations.py'],[('hash and equality methods','polynomials.py Polynomial.__hash__/__eq__, HashableDict.__hash__; vectors.py Vector.__eq__; tableaux.py Tableau.__hash__/__eq__; permutations.py Permutation.__hash__/__eq__')],['==, hash(), use as dictionary key'])
p('C03','Vectors are finite formal linear combinations',
  'Sum, difference, negation, scalar multiplication, product (by the supplied basis multiplication rule, or the product of the basis keys when there is none) and positive powers of vectors are the corresponding operations on finite formal sums over integer or polynomial coefficients. A vector never stores a zero coefficient, looking up an absent basis element gives 0, and no operation changes its operands.',
  ['inputs'],'all vectors over any basis keys, all multiplication rules, integer and polynomial coefficients',
  'The tests use a few small vectors through the symmetric-function layer; cancellation patterns are unbounded.',
  ['vectors.py'],[('coefficient-wise dictionaries filtered of zeros','vectors.py Vector.__init__, __add__, __sub__, __mul__, __pow__')],['the coefficient of every basis element of the result'])
p('C04','Partition operations agree with operations on Young diagrams',
  'For all partitions (strict ones for the shifted versions): the predicates for partitions and strict partitions, row lookup, box membership, containment, trimming, union, transposition, ordinary and shifted diagrams, skew diagrams and shape-from-boxes give exactly the answer read off from the sets of boxes of the diagrams. Conversions between a partition and its box set are mutually inverse, and transposition is an involution.',
  ['inputs'],'all partitions and pairs of partitions of every size',
  'Tests check a few small shapes; off-by-one errors in the last row, in trailing zeros or in the shifted offset need particular shapes.',
  ['partitions.py'],[('row-by-row loops and comprehensions over tuples','partitions.py Partition.trim/get/isin/is_partition/is_strict_partition/contains/union/transpose/shape/shifted_shape/skew/from_shape')],['returned tuples and box sets'])
p('C05','Adding and removing boxes yields exactly the legal neighbouring shapes',
  'For every (strict) partition: adding a box to a row or a column, removing an inner corner of a row, and locating the inner or outer corner of a diagonal change or report exactly the requested box, succeed exactly when the result is again a legal (shifted) shape, and leave every other row alone. The enumerations of all ways of removing a set of inner corners list each such shape exactly once.',
  ['inputs'],'all partitions and strict partitions, all rows, columns and diagonals',
  'Corner cases (single row, last row of length one, equal or consecutive parts) are sampled by a few shapes only.',
  ['partitions.py'],[('case analysis on first, middle and last row','partitions.py Partition.add, add_box_to_row, add_box_to_column, remove_inner_corner(s), remove_shifted_inner_corner(s), find_shifted_inner_corner, find_shifted_outer_corner')],['returned shapes and rows'])
p('C06','Partition and composition enumerations are complete and irredundant',
  'Enumerating compositions of n, partitions of n or of at most n (with any combination of bounds on the largest part and the number of rows, strictness and evenness), the partitions between two given ones, and the one-box-per-row successors of a partition produces every object that meets the stated constraints exactly once and nothing else, on the first and on every later call.',
  ['inputs','histories'],'all sizes, all combinations of the constraints, repeated and interleaved calls',
  'Tests compare small counts for few option combinations; the interaction of bounds with strictness or memory of earlier calls is not sampled.',
  ['partitions.py'],[('recursive generators with bounds','partitions.py Partition.compositions, generate, all, subpartitions, successors')],['the multiset of produced tuples'])
p('C07','Permutations form the group of signed permutations',
  'Composition, inversion, powers, identity, evaluation at positive and negative integers, and conversion from one-line words, cycles and reflections implement the group of signed permutations of the integers with finite support: w(-i) = -w(i), (uv)(i) = u(v(i)), inverses and the identity cancel, and trailing fixed points never matter.',
  ['inputs'],'all signed permutations of every rank, all integers',
  'Tests try a few elements of rank 3 or 4; products of unequal ranks and negative arguments are barely sampled.',
  ['permutations.py'],[('one-line notation with trailing fixed points removed','permutations.py Permutation.__init__, __call__, __mul__, inverse, __pow__, cycles, transposition-like constructors')],['w(i) for all i'])
p('C08','Length, descents, reduced words and Hecke words match Coxeter theory',
  'For every (signed) permutation the length equals the number of (signed) inversions and of letters in each reduced word, descents are exactly the generators whose multiplication lowers the length, the reduced words listed are exactly the shortest factorizations, and the Demazure product and the Hecke words of a permutation agree with each other. Bruhat covers and the involution versions (involution length, involution words, atoms) agree with their definitions through Demazure conjugation.',
  ['inputs'],'all (signed) permutations and all words',
  'Tests look at individual words or small symmetric groups in single calls.',
  ['permutations.py'],[('inversion counting and descent recursion','permutations.py Permutation.length, right_descent_set, get_reduced_words, __mod__, get_hecke_words, get_involution_words, get_atoms')],['returned lengths, sets of words'])
p('C09','Tableau updates are local, persistent and independent of insertion order',
  'Adding, setting, replacing, removing, clearing, transposing or mapping (doubling, halving, negating, standardizing) entries of a tableau returns a tableau whose boxes and entries are exactly the prescribed ones and leaves the original tableau unchanged. Size, entry lookup, row and column extraction, reading words, weights and the predicates for (semi)standardness report exactly what the boxes say.',
  ['inputs'],'all tableaux: any finite set of boxes, any entries',
  'Tests use a few specific tableaux and never look at the untouched boxes or at the original afterwards.',
  ['tableaux.py'],[('copy-on-write of the box dictionary','tableaux.py Tableau.add, set, remove, replace, clear, transpose, apply, standardize, shape, get_row, get_column')],['boxes of the result and of the original'])
p('C10','Strip enumerations list exactly the strips',
  'For every shape and inner bound, the horizontal, vertical, shifted and reverse-plane-partition strip enumerations used to build tableaux list each inner shape whose complement is a strip of the stated kind, together with its set of removable corners, exactly once.',
  ['inputs'],'all (strict) partitions and bounds',
  'Tests list the strips of two or three small shapes.',
  ['tableaux.py'],[('enumeration of inner shapes by decrementing rows','tableaux.py Tableau._horizontal_strips, _vertical_strips, _shifted_horizontal_strips, _shifted_vertical_strips, _rpp_*strips')],['returned lists of shapes and corners'])
p('C11','Enumerated tableaux are exactly the semistandard fillings',
  'For every shape, skew shape and bound on the entries, the enumerations of semistandard, set-valued, marked shifted (with or without marks on the diagonal), reverse plane and standard tableaux produce exactly the fillings satisfying the defining row and column conditions, each once; and the corresponding generating counts by weight agree with the enumerations.',
  ['inputs'],'all shapes, skew shapes, entry bounds and set-valued or not',
  'Tests compare a few totals; a filling lost or duplicated in one shape passes.',
  ['tableaux.py'],[('recursion on the largest entry through strips','tableaux.py Tableau.semistandard*, semistandard_setvalued, semistandard_shifted_marked*, standard*, count_*')],['the set of tableaux, the weight counts'])
p('C12','Symmetric functions are the generating functions of their tableaux',
  'In every number of variables and for every (skew) shape, the polynomial of each Schur-like function (Schur, P, Q, S and their K-theoretic and dual versions) is the weight generating function of the corresponding tableaux with the stated power of beta, and is symmetric; setting beta to zero gives the classical function.',
  ['inputs'],'all shapes, inner shapes, numbers of variables and degree bounds',
  'Tests compare a few printed expansions.',
  ['symmetric.py','tableaux.py'],[('conversion of weight counts into monomial symmetric functions','symmetric.py SymmetricPolynomial.schur, schur_p, schur_q, grothendieck, grothendieck_p, grothendieck_q, dual_*')],['coefficients of every monomial'])
p('C13','Products of symmetric polynomials are products of polynomials',
  'For every pair of symmetric polynomials in the same number of variables (or truncated at the same degree), their sum, scalar multiples and product in the monomial symmetric basis expand to the sum, multiples and product of the underlying polynomials.',
  ['inputs'],'all monomial symmetric functions and numbers of variables',
  'Tests multiply a few pairs of small shapes.',
  ['symmetric.py','vectors.py'],[('destandardized monomial products with memo','symmetric.py SymmetricMonomial._multiply, _destandardize, __mul__')],['the polynomial of the product'])
p('C14','Basis expansions reconstruct the function they expand',
  'Whenever an expansion of a symmetric polynomial into a basis (Schur, P, Q, S, stable Grothendieck and dual families, monomial) is returned, substituting the basis functions back with the returned coefficients gives the original polynomial, and expanding a basis element returns that element alone.',
  ['inputs'],'all symmetric polynomials in the span of the basis',
  'Tests expand a few products.',
  ['symmetric.py'],[('triangular elimination on leading terms','symmetric.py SymmetricPolynomial._expansion and *_expansion')],['the reconstructed polynomial'])
p('C15','Crystal operators are mutually inverse partial maps that shift the weight',
  'For every word, or tableau, in the domain of a raising or lowering operator: if f_i is defined on x then e_i is defined on the result and returns x, and conversely; the weight changes by exactly one letter i turned into i+1 and the string lengths count how often the operators apply.',
  ['inputs'],'all words in any alphabet, all indices, all shifted tableaux',
  'Tests check the axioms on small connected components.',
  ['words.py','tableaux.py','crystals.py'],[('bracketing rule','words.py Word/e_crystal_operator and f_crystal_operator; tableaux.py crystal methods; crystals.py')],['results of e_i and f_i'])
p('C16','Insertion is a bijection: the recorded tableaux recover the word',
  'For every (involution) Hecke word, inserting its letters one by one and applying the inverse algorithm to the resulting pair of tableaux returns the original word; the insertion tableau is increasing with the same Hecke product as the word, and the recording tableau has the same shape.',
  ['inputs'],'all Hecke words and letters',
  'Tests check lists of words of bounded length for small permutations.',
  ['insertion.py'],[('reversible state transitions','insertion.py FState, HState, InsertionAlgorithm')],['pairs of tableaux and recovered word'])
p('C17','Results do not depend on what was computed before',
  'Calling any function with equal arguments gives equal results at any time: earlier or interleaved calls (of the same or other functions, complete or abandoned halfway through an enumeration) and changes that the code itself makes to values never alter a later result, and a returned memoized value is never modified by later library calls.',
  ['histories','schedules'],'all interleavings of calls and partially consumed generators in one process',
  'Each test runs a fixed sequence of calls.',
  ['cached.py','partitions.py','tableaux.py','symmetric.py','permutations.py'],[('memo tables keyed by all arguments','cached.py cached_value and module-level dictionaries'),('level lists shared by generators','permutations.py hecke_levels')],['results of repeated calls'],[('memo tables','argument tuple -> result','module-level dictionaries')])
p('C18','Word statistics and quasisymmetric functions match their definitions',
  'The fundamental and monomial quasisymmetric expansions, the zeta-functions on words (weakly/strictly increasing, peak and valley versions) and quasisymmetrization agree with their defining sums over compositions for every word and every alphabet.',
  ['inputs'],'all words',
  'Tests check a few values.',['words.py','utils.py'],[('definition by cases on runs','words.py Word.*zeta*, quasisymmetrize')],['returned vectors'])
p('C19','Operators on shifted partitions add or remove boxes as defined',
  'The algebraic operators acting on strict partitions, indexed by diagonals or strips, add or remove exactly the box they name with exactly the stated coefficient and return zero otherwise; the strip-by-strip operators on tableaux agree with the sums over strips that define them.',
  ['inputs'],'all strict partitions and indices','Tests evaluate small cases.',['operators.py','dualops.py','boxes.py'],[('corner lookup and box moves','operators.py, dualops.py, boxes.py')],['returned vectors'])
json_lines='\n'.join(json.dumps(x,ensure_ascii=False) for x in P)+'\n'
open('/verif/properties.jsonl','w').write(json_lines)
