COMMON_TRUST = (' Trusted: the reference model in mc/ (written from the definitions, sharing no code with the library), CPython. '
                'Nothing is claimed beyond the stated bounds.')

prop('C01', 'Schur-like and stable Grothendieck polynomials equal their tableau sums',
     'For every number of variables, every pair of partitions mu, nu (strict for the shifted families) and every degree bound, the polynomials s, S, P, Q, G, GS, GP, GQ of the skew shape mu/nu are the sums of the weights of all (marked, set-valued, shifted) semistandard tableaux of that shape, with one factor beta per entry in excess of the number of boxes, and are zero when nu does not fit in mu. '
     'A degree bound keeps exactly the terms of degree up to the bound; the doublebar variants are the sums, weighted by powers of beta, over all ways of removing inner corners from nu; the mn_ variants are the same polynomials with beta negated.',
     ['inputs'], 'all numbers of variables, partitions mu and nu, degree bounds, in any order of calls',
     'The tests compare the fast counters with slow enumerators that share the same strip machinery, for shapes of size at most 6 and mostly without degree bound; an error in the shared strips, in larger or deeper shapes, or in truncated and doublebar calls is invisible to them.',
     ['symmetric.py', 'tableaux.py', 'utils.py'],
     [('strip-by-strip counting', 'tableaux.py: count_semistandard*'), ('memoised wrappers', 'symmetric.py: schur*, stable_grothendieck*')],
     observe=['utils: s P Q S G GP GQ GS *_doublebar mn_*', 'SymmetricPolynomial.items'],
     technique='explicit-state exploration of box-by-box partial fillings, compared with the implementation for every shape in bounds',
     note='Exhaustive over all skew shapes, variables and degree bounds in the stated grid; the model is a state graph of partial fillings with merged frontiers.' + COMMON_TRUST)

prop('C02', 'Dual Grothendieck families equal their reverse-plane-partition sums',
     'For every number of variables and every pair of partitions mu, nu (strict for the shifted families) the polynomials g, gp, gq, gs are the sums over (marked) reverse plane partitions of shape mu/nu of the monomial counting columns per unprimed letter and rows per primed letter, with a factor -beta for every box not counted; they vanish when nu does not fit in mu. '
     'The polynomials j, jp, jq, js are the corresponding sums over (marked) semistandard tableaux in which repeated letters of a row (primed: of a column) contribute x+beta, and the mp_ variants are the same polynomials with beta negated.',
     ['inputs'], 'all numbers of variables and all pairs of partitions',
     'The tests check a few sizes of g, gp, gq against an enumerator built from the same strips and use j, jp, jq only in identities with single rows.',
     ['symmetric.py', 'tableaux.py', 'utils.py'],
     [('rpp strips', 'tableaux.py: count_semistandard_rpp, count_semistandard_marked_rpp'), ('bar tableau weights', 'symmetric.py: slow_transposed_dual_stable_grothendieck*')],
     observe=['utils: g gp gq gs j jp jq js mp_*'],
     technique='explicit-state exploration of partial reverse plane partitions and bar tableaux, compared with the implementation for every shape in bounds',
     note='Exhaustive over all skew shapes and numbers of variables in the stated grid.' + COMMON_TRUST)

prop('C03', 'Tableau enumerators return exactly the objects of their definition',
     'For every skew shape, every largest entry and every choice of primed-diagonal option, the enumerators of semistandard, set-valued, marked, shifted, shifted set-valued, standard and standard shifted tableaux and of (marked) reverse plane partitions return each object satisfying the definition exactly once and nothing else. '
     'The counting functions return, for each partition weight, the number of those objects, and each object reports its own weight correctly.',
     ['inputs'], 'all shapes mu/nu, all alphabets, all option values',
     'Tests list a handful of shapes with known cardinality; the counters are only compared with enumerators using the same strips.',
     ['tableaux.py'],
     [('enumeration by strips', 'tableaux.py: semistandard*, standard*'), ('counting by strips', 'tableaux.py: count_*')],
     observe=['Tableau.semistandard*', 'Tableau.standard*', 'Tableau.count_*', 'Tableau.weight'],
     technique='exhaustive depth-first exploration of partial fillings (every state, every placement); exact set comparison with the implementation',
     note='All shapes, alphabets and options in bounds, exact set equality.' + COMMON_TRUST)

prop('C04', 'Basis expansions are exact inverses of forming combinations',
     'Expanding a linear combination of elements of one of the bases s, G, g, j, P, Q, GP, GQ, gp, gq, jp, jq or a sign variant, with integer or beta-polynomial coefficients, in that basis returns exactly the coefficients of the combination, and zero expands to nothing. '
     'The expansion of any polynomial in the span (products, skew elements, members of other families), including the expansion into products of one-row gp, uses only indices of the basis and sums back to the polynomial; the omega expansion is the Schur expansion with transposed indices.',
     ['inputs'], 'all finite combinations, all coefficients in Z[beta], all numbers of variables',
     'The tests expand single products and skew elements and rely on the assertion inside the expansion itself; combinations with several terms or polynomial coefficients are never tried.',
     ['symmetric.py', 'utils.py', 'vectors.py'],
     [('greedy subtraction of leading terms', 'symmetric.py: _expansion, *_expansion, gp_free_expansion')],
     observe=['utils: *_expansion'],
     technique='exhaustive enumeration of combinations; the returned expansion is replayed as a path of subtractions to the zero state',
     note='All combinations of up to three basis elements over a fixed coefficient alphabet, all products, skew and cross-family elements in bounds.' + COMMON_TRUST)

prop('C05', 'Polynomial arithmetic is exact and canonical',
     'Sums, differences, products, nonnegative powers, powers of unit monomials with negative exponents, beta-sums, exact and floor division, reduction modulo an integer, truncation, substitution, evaluation, coefficient extraction, degree and division by a linear factor of (Laurent) polynomials with integer coefficients give the mathematically correct result, whatever sequence of operations produced the operands. '
     'Operands are never changed; two polynomials are equal exactly when all coefficients agree, and equal polynomials print and hash alike.',
     ['inputs', 'histories'], 'all sequences of operations on polynomials in any variables, including beta and variables with negative index',
     'There is no test file for polynomials; the class is exercised only through other computations, which never use floor division, linear division, negative powers of -x, or compare hashes.',
     ['polynomials.py'],
     [('sparse dictionary arithmetic', 'polynomials.py: Polynomial')],
     observe=['Polynomial operators', 'coefficient', 'substitute', 'truncate', 'repr', 'hash'],
     technique='explicit-state breadth-first search over operation sequences, lock-step with a dense reference ring',
     note='All operation sequences up to the depth bound over a generating alphabet; every reached value compared with a reference ring.' + COMMON_TRUST)

prop('C06', 'Vectors and symmetric polynomials form the right modules and rings',
     'Addition, subtraction, scaling by integers and polynomials, products, powers, floor division, truncation and selection of extreme degrees of vectors and symmetric polynomials agree with doing the same to their coordinates, and passing to ordinary polynomials turns sums, products and powers of symmetric polynomials and monomials (in any number of variables, integers mixed in) into sums, products and powers. '
     'Zero coefficients never survive, operands are never changed, equal values compare equal, and the linear-dependence test says yes exactly when an integer-coefficient vector is a rational combination of the given ones.',
     ['inputs', 'histories'], 'all operation sequences on vectors, all pairs of monomial symmetric polynomials, all small integer matrices',
     'Vectors have one tiny test; monomial products are only exercised through products of a few Schur-like functions.',
     ['vectors.py', 'symmetric.py'],
     [('coordinate dictionaries', 'vectors.py: Vector'), ('monomial product by distributing exponents', 'symmetric.py: SymmetricMonomial._multiply')],
     observe=['Vector operators', 'SymmetricMonomial/SymmetricPolynomial operators', 'polynomial()', 'is_expressable', 'rref'],
     technique='explicit-state search over operation sequences plus exhaustive monomial pairs and small matrices against reference arithmetic',
     note='All operation sequences up to the depth bound, all monomial pairs and matrices in bounds.' + COMMON_TRUST)

prop('C07', 'Results do not depend on earlier calls, iteration or argument style',
     'Every public computation returns the same value whatever other computations ran earlier in the process, in whatever order, including earlier calls with other options, calls passing the same arguments by position or by keyword, generators abandoned half way or consumed in an interleaved way, and calls on other shapes whose results share sub-computations. '
     'In particular no call changes a value returned to an earlier caller.',
     ['histories', 'schedules'], 'all histories of calls and partially consumed generators up to a depth',
     'Each test runs a fixed sequence of calls; memo tables keyed on incomplete arguments or filled by abandoned generators only show for particular histories.',
     ['cached.py', 'tableaux.py', 'symmetric.py', 'permutations.py', 'partitions.py', 'insertion.py', 'vst.py'],
     [('memo tables', 'cached.py: cached_value; module-level dictionaries'), ('generators that fill memo tables on exhaustion', 'permutations.py: get_reduced_words, get_involution_words, ...; partitions.py: generate')],
     state=[('memo tables', 'process-wide results of earlier calls', 'module level of tableaux, symmetric, permutations, partitions, insertion, vst')],
     observe=['return values of all public functions'],
     technique='exhaustive enumeration of call histories and generator schedules on the real code, compared with fresh-process results',
     note='All ordered pairs of call variants within each family, all interleavings and abandonment points of generators up to a bound, deep snapshots of earlier results.' + COMMON_TRUST)

prop('C08', 'Hecke insertion is a bijection compatible with words and descents',
     'Inserting a word (with any weakly increasing record of step numbers) gives a pair of tableaux of equal shape, the first increasing with reading word equivalent to the input under the 0-Hecke relations, the second recording the step of each insertion (set-valued in general), and inverse insertion recovers the word and the record exactly. Each insertion is a finite path of distinct bumping states whose single steps next and previous undo each other. '
     'Distinct inputs give distinct pairs and every pair of an increasing tableau and a standard recording tableau of its shape arises.',
     ['inputs'], 'all words over all alphabets and all compatible records',
     'Tests insert a few explicit words and check round trips for selected permutations.',
     ['insertion.py'],
     [('row insertion and its inverse', 'insertion.py: InsertionAlgorithm.hecke, inverse_hecke')],
     observe=['InsertionAlgorithm.hecke', 'InsertionAlgorithm.inverse_hecke'],
     technique='explicit-state search of the insertion transition system over all words, with inverse replay',
     note='All words and all compatible records in bounds; independent one-letter insertion model.' + COMMON_TRUST)

prop('C09', 'Orthogonal and symplectic Hecke insertion are bijections',
     'For every involution, respectively fixed-point-free involution, orthogonal and symplectic Hecke insertion map its Hecke words (with any compatible record) to pairs of shifted tableaux of equal shape, an increasing insertion tableau and a (set-valued) marked shifted recording tableau without primes on the diagonal in the symplectic case, and the inverse insertions recover word and record, the single bumping steps next and previous undoing each other. '
     'Distinct words give distinct pairs, the insertion tableau determines the involution, and descents of the word match descents of the recording tableau.',
     ['inputs'], 'all involutions, all Hecke words of each length, all compatible records',
     'Tests use explicit words and some reduced words; non-reduced words and larger ranks are sampled only lightly.',
     ['insertion.py', 'permutations.py'],
     [('shifted insertion', 'insertion.py: orthogonal_hecke, symplectic_hecke and inverses')],
     observe=['InsertionAlgorithm.orthogonal_hecke', 'InsertionAlgorithm.symplectic_hecke', 'inverse_*'],
     technique='exhaustive enumeration of Hecke words as paths in the Demazure transition graph, replayed through insertion and its inverse',
     note='All Hecke words of all (fpf) involutions in bounds.' + COMMON_TRUST)

prop('C10', 'Crystal operators on words and tableaux follow the signature rule',
     'On words, divided words, set-valued tableaux and multiset-valued tableaux, the raising and lowering operators act by the signature rule: each is undefined (reported as none) or moves exactly one letter from i+1 to i or from i to i+1, keeping the division into subwords, the shape, and (multi)set-valued semistandardness. '
     'The two operators are inverse to each other wherever defined, weights shift by a simple root, string lengths differ by the weight difference, and every connected component is a highest weight crystal; a multiset-valued tableau and its crystal reading word determine each other, and operands are never changed.',
     ['inputs', 'histories'], 'all words and tableaux and all sequences of operators',
     'The tests apply the operators to five words and a few tableaux; no exhaustive inverse, weight or closure check.',
     ['words.py', 'tableaux.py'],
     [('bracketing', 'words.py: e_crystal_operator, f_crystal_operator'), ('column reading', 'tableaux.py: crystal_reading_word, e/f_crystal_operator')],
     observe=['Word.e_crystal_operator', 'Word.f_crystal_operator', 'Tableau.e_crystal_operator', 'Tableau.f_crystal_operator', 'Tableau.crystal_reading_word', 'Tableau.from_crystal_reading_word'],
     technique='explicit-state exploration of all operator transitions on all words and tableaux in bounds; every transition replayed on the implementation; graph invariants checked on the explored crystals',
     note='Every state and every operator in bounds.' + COMMON_TRUST)

prop('C11', 'Crystal generators report the true crystal graphs',
     'For every choice of parameters the word, tableau, shifted and fixed-insertion-tableau crystal generators list every vertex of their set exactly once, report as edges exactly the pairs related by one lowering operator (transported through insertion where the vertices are factorizations or recording tableaux), and report as components exactly the connected parts. '
     'The strings they report are exactly the maximal chains of a lowering operator, and the factorizations of a word into monotone factors are listed completely and without repetition.',
     ['inputs'], 'all permutations, shapes, ranks, lengths and excess bounds',
     'A single stable test of the vertices of one family for one permutation; edges and components are never asserted.',
     ['crystals.py', 'insertion.py', 'tableaux.py', 'words.py'],
     [('vertex sets and edges', 'crystals.py: *CrystalGenerator'), ('graph search', 'crystals.py: CrystalMixin.components, edges, istrings')],
     observe=['elements', 'edges', 'components', 'istrings', 'get_increasing_factorizations'],
     technique='explicit-state exploration of crystal graphs built from the definitions (signature rule transported through a model of insertion), exact comparison of vertices, edges, components and strings',
     note='All parameter choices in bounds.' + COMMON_TRUST)

prop('C12', '(Signed) permutations obey the group and Coxeter laws',
     'Products, inverses, powers of any integer exponent, the Demazure product, one-line and cycle forms, star and conjugation of plain and signed permutations agree with composition of the underlying maps, independently of trailing fixed points. '
     'Length (plain and signed), descent sets, involution length, parity and last descents agree with counting inversions, longest elements, transpositions and generators are the expected elements, and the enumerators of permutations and of (fixed-point-free) involutions list each exactly once.',
     ['inputs'], 'all (signed) permutations of all ranks',
     'Tests cover a few elements and small ranks.',
     ['permutations.py'],
     [('one-line arithmetic', 'permutations.py: Permutation')],
     observe=['Permutation operators and accessors'],
     technique='explicit-state exploration of the (signed) symmetric groups as Cayley graphs with all operators compared with maps on integers',
     note='All elements and all pairs in bounds.' + COMMON_TRUST)

prop('C13', 'Reduced, involution and fixed-point-free words and atoms are complete',
     'For every (signed) permutation and every (fixed-point-free) involution the enumerators of reduced words, involution words, fixed-point-free involution words and atoms return exactly the minimal-length expressions of their definition, each once, and their predicates accept exactly those. ',
     ['inputs'], 'all permutations, signed permutations and involutions of all ranks',
     'Tests compare cardinalities for a few elements.',
     ['permutations.py'],
     [('descent recursion', 'permutations.py: get_reduced_words, get_involution_words, get_fpf_involution_words, get_signed_reduced_words, atoms')],
     observe=['word and atom enumerators'],
     technique='shortest-path enumeration in the weak-order transition graph, exact set comparison',
     note='All elements in bounds.' + COMMON_TRUST)

prop('C14', 'Hecke words and permutation Grothendieck polynomials are complete',
     'For every permutation, involution and fixed-point-free involution, the Hecke word enumerators return exactly the words of the requested lengths (or factorizations with the requested number of factors, ascent or peak bounds) whose Demazure product, respectively Demazure conjugation product, is that element. '
     'The stable Grothendieck polynomials attached to the element are the generating functions of those factorizations, weighted by beta, and a degree bound keeps exactly the terms up to that degree.',
     ['inputs'], 'all elements, lengths and bounds',
     'Tests only use three-letter permutations or cardinalities.',
     ['permutations.py', 'words.py'],
     [('level-by-level enumeration', 'permutations.py: hecke/symplectic/involution levels')],
     observe=['Permutation.*hecke_words', 'Permutation.*stable_grothendieck'],
     technique='breadth-first exploration of the Demazure transition graph; every word compared with the enumerators',
     note='All elements, lengths and bounds in the grid.' + COMMON_TRUST)

prop('C15', 'Little bumps are weight-preserving bijections on words',
     'Bumping a reduced (involution, fixed-point-free involution) word at an element reachable by deleting one letter performs exactly the sequence of single increments of the bump algorithm and ends in a reduced word of the same kind and length. It preserves descents and the (orthogonal, symplectic) recording tableau, raises each letter by at most one (two in the fixed-point-free case), is undone by the bump of the complementary word, and leaves the word alone when no letter can be deleted; giving a transposition instead of an element selects the element connected by that transposition.',
     ['inputs'], 'all reduced words and starting positions',
     'Only a few examples are tested.',
     ['permutations.py'],
     [('bump loop', 'permutations.py: little bumps')],
     observe=['bump results'],
     technique='explicit-state exploration of the bump transition system on all words in bounds',
     note='All words and positions in bounds.' + COMMON_TRUST)

prop('C16', 'Partition enumerators and diagram geometry are exact',
     'Partitions (strict, even, bounded parts or rows), subpartitions, successors, compositions, rims, strips, ribbons, complements and decompositions are enumerated completely and without repetition, and diagram operations (containment, transpose, corners, adding and removing boxes, skew diagrams and back, printing, shifted and unshifted) agree with the diagrams as sets of cells.',
     ['inputs'], 'all partitions and pairs of partitions',
     'Tests list a few small cases.',
     ['partitions.py'],
     [('tuple arithmetic', 'partitions.py: Partition')],
     observe=['Partition.*'],
     technique='exhaustive exploration of Young-lattice states and box moves, compared with set-of-cells models',
     note='All partitions and pairs in bounds.' + COMMON_TRUST)

prop('C22', 'Codes, shapes, covers and transitions describe the (involution) Bruhat orders',
     'For every permutation, involution and fixed-point-free involution the diagrams, codes and shapes count the inversions they are defined by, with total size the corresponding length; the Grassmannian constructors return the element of the given shape, whose stable Grothendieck polynomial is G of the transposed shape, respectively GP of the shape. '
     'The (involution, fixed-point-free) Bruhat cover enumerators list each element covered exactly once, also for signed permutations, and the transition enumerators and the operation tau give exactly the covers by a transposition in the given position.',
     ['inputs'], 'all permutations and (fixed-point-free) involutions of all ranks; all partitions',
     'Tests check a few Grassmannian shapes and one transition; the transition tests are vacuous.',
     ['permutations.py'],
     [('diagrams and codes', 'permutations.py: rothe_diagram, code, involution_code, shape'), ('covers and transitions', 'permutations.py: *bruhat_covers, tau, *_transitions'), ('Grassmannian elements', 'permutations.py: get_grassmannian, get_inv_grassmannian, get_fpf_grassmannian')],
     observe=['Permutation accessors and enumerators'],
     technique='exhaustive exploration of the Bruhat graphs (reflections, rank-matrix order, breadth-first ranks), exact set comparison',
     note='All elements of the stated ranks and all partitions of the stated sizes. The emptiness of upper_transitions and lower_transitions is a recorded finding.' + COMMON_TRUST)

prop('C19', 'Growth diagrams agree with the insertion algorithms',
     'Every entry of the growth diagram of a nonnegative integer matrix is the shape that row insertion gives the submatrix to its upper left, for matrices given as sets of positions or as dictionaries and for any larger declared size. '
     'Every entry of the shifted growth diagram of a word is the shape that orthogonal Hecke insertion gives an initial segment restricted to small letters; an edge is marked exactly when that step ends in a column, and the two tableaux read off the diagram are the insertion and recording tableaux of the word.',
     ['inputs'], 'all matrices with nonnegative entries and all words, of any size',
     'Tests check a handful of matrices and words (some at random).',
     ['partitions.py', 'tableaux.py'],
     [('local rules', 'partitions.py: growth_diagram, shifted_growth_diagram'), ('reading', 'tableaux.py: from_shifted_growth_diagram')],
     observe=['growth diagram entries', 'tableaux read off'],
     technique='explicit-state exploration of the insertion transition systems; every diagram entry is compared with the state reached by the restricted word',
     note='All matrices and words in bounds.' + COMMON_TRUST)

prop('C17', 'KOG and KLG tableaux are complete and give the K-theoretic Pieri rules',
     'The enumerators of KOG and KLG tableaux return, for every strict partition and number of labels, exactly the labellings of rims satisfying the definition, each once, the fast counts equal their number for every pair of shapes, and rims are enumerated completely. '
     'Products of GP, GQ, gp and gq with a one-row function expand with exactly these counts times the matching power of beta, and the one-letter set-valued tableaux of the dual rule are exactly the coefficients of the products gp_lambda gq_r and gq_lambda gq_r.',
     ['inputs'], 'all strict partitions, all numbers of labels, all one-row factors',
     'Tests compare counts with lists (not with the definition) and expand products for factors of one or two boxes.',
     ['tableaux.py', 'partitions.py'],
     [('enumeration', 'tableaux.py: KOG, KLG, shifted_setvalued_copieri'), ('fast counts', 'tableaux.py: KOG_counts, KLG_counts, partitions.py: rims, rim_terminal_part')],
     observe=['Tableau.KOG*, KLG*, shifted_setvalued_copieri', 'expansions of products'],
     technique='explicit-state exploration of the transition system that grows a rim filling label by label; identities checked on model polynomials',
     note='All strict partitions and label counts in bounds.' + COMMON_TRUST)

prop('C18', 'Valued-set tableaux and their weight-reversing involutions are correct',
     'The enumerators of valued-set tableaux and of their intermediate form return exactly the objects of the definition, whose weight generating function is jq or jp (without primed diagonal entries), and accessors (weight, groups, singletons, predicates) agree with the division into groups. '
     'For every tableau and index i the transition is a semistandard tableau of the same shape with the multiplicities of i and i+1 exchanged and the same number of primed diagonal boxes; it touches no other letter, does not depend on them, and is an involution; its forward and backward parts are inverse bijections.',
     ['inputs'], 'all valued-set tableaux of all skew shapes over any alphabet, all indices',
     'Tests only use two letters and shapes of at most eight boxes.',
     ['vst.py'],
     [('transitions', 'vst.py: forward_transition, middle_transition, backward_transition, transition'), ('enumeration', 'vst.py: all, all_interstandard')],
     observe=['ValuedSetTableau methods'],
     technique='exhaustive exploration of the graph whose states are all valued-set tableaux and whose edges are the transitions',
     note='All tableaux in bounds.' + COMMON_TRUST)

prop('C20', 'Box operators act on shifted diagrams by their definition',
     'Each elementary operator (adding or removing a box on a diagonal, with beta corrections, in the row, column, primal and dual families) sends every strict partition to the combination its description by sets of cells prescribes, for every diagonal index including those where nothing can happen, acts linearly on combinations with polynomial coefficients and leaves its argument unchanged. '
     'The composite operators are the ordered products of the elementary ones for any variable, and their matrix entries are the one-variable skew functions; the strip predicates of the dual operators agree with the cells.',
     ['inputs'], 'all strict partitions, diagonals, variables and linear combinations',
     'Tests apply operators to a few shapes and compare identities only up to small size.',
     ['operators.py', 'dualops.py'],
     [('elementary operators', 'operators.py, dualops.py'), ('composites', 'operators.py: operator_AL, operator_AR, operator_R, operator_C'), ('strips', 'dualops.py: sh_horizontal_strip, sh_vertical_strip')],
     observe=['operator images'],
     technique='explicit-state exploration of the graph of shifted diagrams under box moves; every transition of the implementation compared with the model',
     note='All strict partitions and diagonals in bounds.' + COMMON_TRUST)

prop('C21', 'Words of box operators form the stated algebra',
     'A product of words of row and column operators is their concatenation, zero when two equal or opposite letters become adjacent, with powers of beta adding up; sums, differences, multiples by integers and polynomials, products with operators named by strings, equality and filtering are those of the free module on nonzero words. '
     'No operation changes its operands, printing shows the word, and the commutator is the filtered difference of the two ordered products.',
     ['inputs', 'histories'], 'all words and all sequences of operations',
     'Tests check a few relations between single words.',
     ['boxes.py', 'vectors.py'],
     [('word product', 'boxes.py: box_operator_multipler, box_operator_relations'), ('module operations', 'boxes.py: BoxOperator'), ('filter, commutator', 'boxes.py: filter, commutator')],
     observe=['BoxOperator values', 'printed words'],
     technique='breadth-first exploration of all operation sequences up to a depth, implementation and model in lock step',
     note='All words and operation sequences in bounds.' + COMMON_TRUST)

prop('C23', 'Function families obey branching, Cauchy, duality and cancellation laws',
     'Each of the sixteen families (Schur, P, Q, S, stable Grothendieck G, GP, GQ, GS, and their duals g, gp, gq, gs, j, jp, jq, js) satisfies, for all straight and skew indices and all numbers of variables: '
     'the branching rule (setting variables apart expresses the function through one-variable functions of mu//kappa, with the double-bar variants for the G families), hence stability under setting a variable to zero, '
     'and the relation between skew and double-bar functions. The skew Cauchy identities between G and g, GP and gq, GQ and gp hold in every bounded degree; omega exchanges the g families and the j families; '
     'GQ expands in GP and gq in gp by the explicit strip formulas; and P, Q, GP, GQ satisfy the (K-theoretic) Q-cancellation law.',
     ['inputs'], 'all partitions and pairs of partitions, any number of variables',
     'Tests evaluate the Cauchy and strip formulas for very small bounds and never check branching or cancellation.',
     ['symmetric.py', 'tableaux.py', 'partitions.py'],
     [('functions', 'symmetric.py: SymmetricPolynomial.schur*, *stable_grothendieck*'), ('counting recursions', 'tableaux.py: Tableau.count_semistandard*'), ('strips', 'partitions.py: vertical strips, inner corners')],
     observe=['coefficients of the symmetric polynomials'],
     technique='explicit-state exploration of the one-variable transfer graph on partitions (all paths of length n), every coefficient compared with the implementation; exhaustive coefficientwise evaluation of the identities',
     note='Reaches much larger shapes than C01 and C02, whose one-variable tableau definitions it composes.' + COMMON_TRUST)

prop('C24', 'Tableaux are immutable maps from cells to multisets with faithful readings',
     'For every history of edits (add, remove, replace, set, clear, pop) a tableau equals the map from cells to sorted multisets those edits describe, the tableaux it was derived from are unchanged, equal contents mean equal objects with equal hashes, the order is a strict total preorder by size and reading, and all accessors (shape, size, weight, rows, columns, lookups, readings, printing, LaTeX, transpose, negation, doubling, serialization) report that map. '
     'The semistandard and standard predicates are their definitions; standardization is the unique standard filling keeping the order of letters and is injective for a given weight; reading words can be read back into the tableau; text forms parse to the cells they show; a signed permutation acts entrywise.',
     ['histories', 'inputs'], 'all sequences of edits; all fillings of all (skew, shifted) diagrams; all words',
     'Tests build a few dozen tableaux and never follow a history of edits.',
     ['tableaux.py', 'permutations.py'],
     [('edits', 'tableaux.py: add, remove, replace, set, clear, pop'), ('predicates', 'tableaux.py: is_semistandard, is_standard'), ('readings', 'tableaux.py: *_reading_word, from_*_reading_word, standardize, descent_set')],
     observe=['Tableau values', 'printed tableaux'],
     technique='breadth-first exploration of all edit sequences up to a depth with a lock-step dictionary model; exhaustive exploration of all fillings for predicates and readings',
     note='All histories and fillings in bounds.' + COMMON_TRUST)

prop('C26', 'Unpriming the diagonal is a weight-preserving injection of tableaux',
     'Unpriming the diagonal turns every semistandard shifted marked set-valued tableau into a tableau with the same letters up to primes whose diagonal boxes are unprimed except possibly for their largest letter, leaves tableaux that already have such a diagonal unchanged, and gives the same result when applied twice. '
     'The result is again semistandard, its shape arises from the original by adding at most one box to each nonempty row, and no two tableaux of the same shape have the same result.',
     ['inputs'], 'all strict shapes, all alphabets, all set-valued fillings',
     'The tests assert only the shape and semistandardness of tableaux that collide, and there are none in the single shape they enumerate.',
     ['insertion.py'],
     [('column insertion of sets', 'insertion.py: unprime_diagonal, setvalued_column_insert')],
     observe=['InsertionAlgorithm.unprime_diagonal'],
     technique='exhaustive depth-first exploration of all set-valued fillings; every image judged against the definition, collisions searched among all images',
     note='All tableaux of all shapes and alphabets in bounds. With three or more letters the map has failures on some shapes, recorded as known findings by the exact set of failing tableaux.' + COMMON_TRUST)

prop('C25', 'Word statistics and characters count factorizations',
     'For every word the descent set is its set of descents; the number of ascents is one less than the least number of strictly decreasing factors it can be cut into, and the number of peaks is the least number of factors that are strictly decreasing then strictly increasing. '
     'The characters (increasing, decreasing, weak and unimodal) count the ways to cut the word into the stated parts, and quasisymmetrizing a word with any character gives, for every composition, the product of the character over the factors of those lengths.',
     ['inputs'], 'all words over all alphabets, all characters',
     'There is no test file for words; only one character is exercised, inside Stanley symmetric functions.',
     ['words.py'],
     [('recursion over first factors', 'words.py: quasisymmetrize'), ('statistics', 'words.py: descent_set, ascents, peaks, *_zeta')],
     observe=['Word.*_zeta', 'Word.quasisymmetrize', 'Word.ascents', 'Word.peaks'],
     technique='exhaustive exploration of all cut-point paths of every word, compared with the implementation',
     note='All words up to the bounds; the model explores all factorizations.' + COMMON_TRUST)

prop('C27', 'Printed and drawn output shows exactly the object it prints',
     'The printed form of a polynomial, vector, symmetric polynomial or permutation determines it: reading the text back gives the same coefficients and keys, and equal vectors print, hash and serialize alike. '
     'Rothe diagrams (plain, involution and fixed-point-free) contain the cells of their definition and are drawn cell by cell; partitions, growth diagrams, matrices and valued-set tableaux are drawn entry by entry and wall by wall. '
     'In the wiring diagrams of a word each letter is a crossing at its height; following the wires of the diagram of a reduced involution word, through its arcs, connects exactly the cycles of the involution, and the bottom of a fixed-point-free diagram shows an arc exactly below the cycles inside which another cycle starts. '
     'The graph files of a crystal hold each edge of the whole graph and of each connected component once, with labels that show the elements (the factors of a word, the entries of a tableau or of the two-row array inserted) and are distinct for distinct elements; drawing a whole family draws every member that has edges, and nothing else.',
     ['inputs'], 'all polynomials, vectors, permutations, words, partitions, tableaux and crystals',
     'No test looks at printed output; a wrong picture or a dropped sign is never noticed.',
     ['words.py', 'crystals.py', 'vectors.py', 'polynomials.py', 'symmetric.py', 'partitions.py', 'permutations.py', 'vst.py'],
     [('wiring diagrams', 'words.py: *wiring_diagram*'), ('graph files', 'crystals.py: write_dotfile, generate, components'), ('printing', '__repr__ methods, print_*, Permutation.rothe_diagram')],
     observe=['strings', 'standard output', 'graph files in a scratch directory'],
     technique='exhaustive enumeration of objects; every text is parsed by an independent reader, wiring diagrams are traversed strand by strand as state machines',
     note='All objects in bounds; the drawing program is replaced by a recorder.' + COMMON_TRUST)
