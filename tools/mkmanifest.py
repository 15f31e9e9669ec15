"""Writes MANIFEST.json: claimed properties, and the rest as not applicable with the reason."""
import json
TECH = 'contract-based deductive verification: pyvc generates VCs from the current source against sidecar contracts; z3 and cvc5 discharge them'
TB = ' Trusted: pyvc (VC generator and its library axioms), z3/cvc5, CPython.'
CLAIMS = {
 'C01': ('proof', 'Construction, +, -, *, ** (exponent >= 0 and the documented negative case), ==, nonzero invariant and the coefficient accessors of MonomialPolynomial/Polynomial proved for all polynomials over exponent dictionaries; the printing, substitution and division helpers are bounded stand-ins.' + TB),
 'C02': ('proof', 'Hash/equality laws of polynomials, vectors and permutations proved from the contracts; tableaux, partitions and the other immutable keys are bounded stand-ins.' + TB),
 'C03': ('proof', 'The Vector operations are proved for all vectors over uninterpreted keys and ring coefficients; the multiplier-dependent product and printing are bounded stand-ins.' + TB),
 'C07': ('proof', 'Signed permutation operations proved for all window lists; conversions and enumerations not listed under contract are bounded stand-ins.' + TB),
 'C08': ('proof', 'Reduced words (one and all, with the memo table), descents, reflections and longest elements proved; the length function, Hecke words, Bruhat covers and the atoms are bounded stand-ins.' + TB),
 'C04': ('proof', 'Every function of the statement except sort, complement and merge_shifted is under a contract proved for all tuples/lists; those are only evaluated on bounded inputs.' + TB),
 'C05': ('proof', 'add, add_box_to_row, remove_inner_corner, remove_shifted_inner_corner and the two corner finders proved for all shapes; the enumerations of corner subsets and add_box_to_column are bounded stand-ins.' + TB),
 'C06': ('proof', 'All enumerations proved: each produced sequence has no repetition and contains exactly the required tuples, for all arguments; memo tables are covered by an invariant.' + TB),

 'C09': ('proof', 'Tableau construction, add/set/replace/remove/clear, lookups, rows, columns, transpose, apply/double/halve/negate, iteration and is_semistandard proved for all tableaux with int, tuple or mixed entries; weights, reading words, shape, standardize and pop are bounded stand-ins.' + TB),
 'C18': ('proof', 'zeta functions and quasisymmetrization proved for all words and all callback functions (unimodal versions relative to the monotonicity macros); the expansions in fundamental and monomial quasisymmetric functions are bounded stand-ins.' + TB),
 'C19': ('proof', 'Strip operators, row/column/diagonal add and remove operators and box relations proved for all strict partitions; composite operators, the decorator that extends them linearly and the BoxOperator wrappers are bounded stand-ins.' + TB),

 'C10': ('proof', 'Horizontal, vertical, shifted horizontal and shifted vertical strips proved for all shapes: every entry is a strip of the stated kind with its boxes and removable corners, every strip is listed, and none twice. The four reverse-plane-partition strip enumerations are bounded stand-ins.' + TB),
 'C11': ('other', 'Proved for all shapes, inner shapes and bounds: Tableau.semistandard and semistandard_setvalued (with the subsets of corners they iterate over) return only semistandard fillings and every one of them; is_semistandard decides the row and column conditions, marked entries included. The marked, shifted marked, reverse plane and standard enumerations and the weight counts are bounded stand-ins (compared with an independent brute-force enumeration).' + TB),
 'C12': ('other', 'Proved for all inputs: the conversion of weight counts into a symmetric polynomial (SymmetricPolynomial._vectorize in its four uses). The weight counts themselves and the functions that call the conversion are bounded stand-ins (evaluated against generating functions of independently enumerated tableaux).' + TB),
 'C13': ('proof', 'Proved for all monomial symmetric functions and symmetric polynomials: rearrangements, structure constants of the monomial product (with the memo table), sums, differences, integer and polynomial multiples and products, truncation and extreme degree parts. That the structure constants do not change beyond len+len variables is a bounded stand-in.' + TB),
 'C14': ('other', 'Proved for every family of basis functions and every choice of leading term: if SymmetricPolynomial._expansion returns, the coefficients rebuild the function (partial correctness: termination, the asserts and the error paths are assumed). The basis-specific wrappers and uniqueness on basis elements are bounded stand-ins.' + TB),
 'C15': ('proof', 'Word.f_crystal_operator and e_crystal_operator proved for all words and lists of words: defined exactly when the bracketing leaves a letter, and the changed position is characterised by the bracket height; the two laws (raising undoes lowering and conversely) are proved from these contracts. Tableau operators, string lengths and crystals of factorizations are bounded stand-ins.' + TB),
 'C16': ('other', 'Proved for all words and records: the compatibility check of a record with a word and the table it builds (InsertionAlgorithm._check_record), and the tableau operations the insertion states are made of (C09). The insertion and inverse insertion themselves are bounded stand-ins: every word over small alphabets is inserted, recovered, and its tableaux compared with an independent Hecke product and shape.' + TB),
 'C17': ('proof', 'Proved: the memo decorator returns the value of the wrapped function and keeps its table correct for every argument tuple and history; the memo invariants of the tables in partitions.py, permutations.py and symmetric.py are part of the contracts of the functions using them; a flow analysis of the current source discharges one ownership condition per use of a memoized mutable value. Other module-level tables are bounded stand-ins (call histories).' + TB),
}
NA = {}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks = [dict(property=p['id'], quick_cmd='python3-vt check.py %s' % p['id'], thorough_cmd='python3-vt check.py %s --thorough' % p['id'],
               technique=TECH, level=CLAIMS[p['id']][0], level_note=CLAIMS[p['id']][1]) for p in props if p['id'] in CLAIMS]
na = [dict(property=p['id'], reason=NA.get(p['id'], 'contracts for this property are not built yet')) for p in props if p['id'] not in CLAIMS]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)
