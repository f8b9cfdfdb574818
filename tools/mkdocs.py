#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, I, O, AB, QC = ('schubertpy/grassmannian.py', 'schubertpy/isotropic_grassmannian.py',
                   'schubertpy/orthogonal_grassmannian.py', 'schubertpy/abstract_grassmannian.py',
                   'schubertpy/qcalc.py')
LC, SC, PA, MT, KS, MIX = ('schubertpy/lc.py', 'schubertpy/schur.py', 'schubertpy/partition.py',
                           'schubertpy/mult_table.py', 'schubertpy/utils/kstrict.py', 'schubertpy/utils/mix.py')

UNB = 'rows bounded per configuration; the width k, n and all parts are unbounded solver integers'
SPC = 'every Schubert class of each listed small space, as solver variables'

# id, title, statement, over, quantifier text, why tests can't, files, mechanism
P = [
('C01', 'Classical Pieri rule on ordinary Grassmannians',
 'On Gr(m,n), multiplying any Schubert class S[lambda] by the special class S[p], 1 <= p <= n-m, gives exactly the sum, each with coefficient 1, of the classes S[mu] of the m x (n-m) rectangle with mu/lambda a horizontal strip of size p. No other term appears, and no q.',
 ['inputs', 'configurations'], 'every m, n, every partition in the rectangle, every p',
 'The tests sample a few products on a few spaces; the rule must hold for every width, every partition and every p.',
 [G, QC, AB], [('pieri', AB), ('pieriA_inner', G), ('_pieri_fillA/_pieri_itrA', QC)]),
('C02', 'Quantum Pieri rule on ordinary Grassmannians',
 'On Gr(m,n), the quantum product of a Schubert class with a special class is the classical Pieri sum plus the q-terms given by Bertram\'s quantum Pieri rule: q*S[nu] with coefficient 1 exactly when |nu| = |lambda| + p - n and lambda_1 - 1 >= nu_1 >= lambda_2 - 1 >= ... >= lambda_m - 1 >= nu_m >= 0. No other term appears.',
 ['inputs', 'configurations'], 'every m, n, every partition in the rectangle, every p',
 'The quantum correction appears only for partitions touching the border; tests sample a few products.',
 [G, QC, AB], [('qpieri', AB), ('qpieriA_inner', G)]),
('C03', 'Classical Pieri rule on symplectic Grassmannians',
 'On IG(m,2n), multiplying any Schubert class by a special class S[p] gives exactly the Buch-Kresch-Tamvakis Pieri sum: the classes S[mu] with lambda -> mu, |mu| = |lambda| + p, each with coefficient 2^N(lambda,mu), and nothing else.',
 ['inputs', 'configurations'], 'every symplectic Grassmannian, every k-strict partition, every p',
 'Tests sample a handful of products; the multiplicities 2^N depend on the shape of the skew diagram in ways a few samples do not reach.',
 [I, QC], [('pieriC_inner', I), ('pieri_set, count_comps, calc_comps, count_ones', QC)]),
('C04', 'Classical Pieri rule on odd orthogonal Grassmannians',
 'On OG(m,2n+1), multiplying any Schubert class by a special class S[p] gives exactly the Buch-Kresch-Tamvakis Pieri sum: the classes S[mu] with lambda -> mu, |mu| = |lambda| + p, with coefficient 2^N\'(lambda,mu), and nothing else.',
 ['inputs', 'configurations'], 'every odd orthogonal Grassmannian, every k-strict partition, every p',
 'Tests sample a handful of products; the multiplicities depend on the shape of the skew diagram.',
 [O, QC], [('pieriB_inner', O), ('pieri_set, count_comps', QC)]),
('C05', 'Classical Pieri rule on even orthogonal Grassmannians',
 'On OG(m,2n+2), multiplying any (typed) Schubert class by any special class, including both classes of codimension k when k > 0, gives exactly the Buch-Kresch-Tamvakis Pieri sum with its types and multiplicities, and nothing else.',
 ['inputs', 'configurations'], 'every even orthogonal Grassmannian, every typed k-strict partition, every special class',
 'Types and multiplicities depend on the skew diagram and on the type labels; tests sample a handful of products.',
 [O, QC], [('pieriD_inner, _dcoef, _toSchurFromIntnMu', O), ('pieri_set', QC)]),
('C06', 'Quantum Pieri rule on symplectic Grassmannians',
 'On IG(m,2n), the quantum product of any Schubert class with a special class is the classical Pieri sum plus the q-terms of the quantum Pieri rule: q*S[nu] with half the coefficient that (n+k+1,nu) has in the classical product of S[p] and S[lambda] on IG(m+1,2n+2). No other term appears.',
 ['inputs', 'configurations'], 'every symplectic Grassmannian, every k-strict partition, every p',
 'q-terms only appear for large classes; tests sample few spaces.',
 [I, QC], [('qpieriC_inner', I), ('pieri_set, count_comps', QC)]),
('C07', 'Quantum Pieri rule on odd orthogonal Grassmannians',
 'On OG(m,2n+1), the quantum product of any Schubert class with a special class is the one prescribed by the quantum Pieri rule of Buch-Kresch-Tamvakis, with its q and q^2 terms and multiplicities, in its maximal isotropic form when m = n, and no other terms.',
 ['inputs', 'configurations'], 'every odd orthogonal Grassmannian, every k-strict partition, every p',
 'The q and q^2 terms need particular partitions; tests sample few.',
 [O, QC], [('qpieriB_inner', O), ('_part_star, _part_tilde', QC)]),
('C08', 'Quantum Pieri rule on even orthogonal Grassmannians',
 'On OG(m,2n+2), the quantum product of any typed Schubert class with any special class is the one prescribed by the quantum Pieri rule, with its q, q1, q2 and q^2 or q1*q2 terms, types and multiplicities, and no other terms.',
 ['inputs', 'configurations'], 'every even orthogonal Grassmannian, every typed k-strict partition, every special class',
 'Special cases (k = 0, k = 1, m = n, types) multiply; tests sample few.',
 [O, QC], [('qpieriD_inner', O), ('_part_star, _part_tilde, type_swap_inner', QC)]),
('C09', 'Multiplications by special classes commute',
 'On every Grassmannian of every type, multiplying a Schubert class by one special class and then by another gives the same result in either order, for the classical and for the quantum product.',
 ['inputs', 'configurations'], 'every space, every class, every pair of special classes',
 'This consistency law constrains every Pieri coefficient at once; tests compare few fixed outputs.',
 [AB, G, I, O, QC], [('pieri, qpieri', AB), ('pieri*_inner, qpieri*_inner', 'schubertpy/*_grassmannian.py')]),
('C10', 'Products are graded with non-negative integer coefficients',
 'Every classical or quantum product of two Schubert classes is a sum of valid Schubert classes of that space with non-negative integer coefficients. Each term q^d S[nu] satisfies codim(nu) + d*deg(q) = codim(lambda) + codim(mu), where deg(q) is the degree the space reports (q1 and q2 likewise).',
 ['inputs', 'configurations'], 'every space, every pair of classes',
 'A universally quantified statement about all products of all spaces; tests fix few outputs.',
 [AB, G, I, O], [('mult, qmult', AB), ('degree_q', 'schubertpy/*_grassmannian.py')]),
('C11', 'Giambelli polynomials evaluate back to the class',
 'For every Schubert class, the polynomial in the special classes returned by giambelli (qgiambelli), expanded back in Schubert classes by toS (qtoS) or acted on the unit class, is exactly the class one started from. The polynomial involves special classes only.',
 ['inputs', 'configurations'], 'every space, every class',
 'Round trip over all classes of all types; tests fix few polynomials.',
 [AB], [('giambelli, qgiambelli, giambelli_rec_inner, toS, qtoS', AB)]),
('C12', 'The products are commutative, associative, unital and bilinear',
 'The classical and quantum products of Schubert classes are commutative, have S[] as unit, are distributive over linear combinations, and are associative. This holds on Grassmannians of all four types.',
 ['inputs', 'configurations'], 'every space, all pairs and triples of classes',
 'Ring axioms quantify over pairs and triples; tests fix few products.',
 [AB], [('mult, qmult, act_lc, giambelli_rec_inner', AB)]),
('C13', 'Quantum operations at q = 0 are the classical ones',
 'Setting the quantum parameters to zero in the quantum product, the quantum Pieri product, or a quantum action of a polynomial gives the corresponding classical result. Classical results contain no quantum parameter.',
 ['inputs', 'configurations'], 'every space, every pair of classes',
 'Quantifies over all products; tests compare few fixed outputs.',
 [AB, G, I, O], [('qmult, mult, qpieri, pieri, qact, act', AB)]),
('C14', 'dualize is Poincare duality',
 'For every class, dualizing twice gives the class back, and the codimensions of a class and its dual add up to the dimension of the space. The classical product of a class with the dual of another class of the same codimension contains the point class with coefficient 1 if the two are equal and 0 otherwise.',
 ['inputs', 'configurations'], 'every space, every pair of classes of complementary codimension',
 'Duality pairs all classes of all spaces; tests list few dual classes.',
 [G, I, O, QC], [('dualize', 'schubertpy/*_grassmannian.py'), ('dualize_index_inner, part2index*_inner, index2part*_inner', QC)]),
('C15', 'Partitions and index sets correspond one to one',
 'part2index sends the Schubert classes of a space one to one to the index sets of its Schubert varieties (m increasing entries in 1..N, isotropic where the type requires it) and index2part is its inverse. The codimension read off from the index set is the size of the partition, and lists, class names and class objects are accepted alike.',
 ['inputs', 'configurations'], 'every space, every class, every admissible index set',
 'A bijection over all spaces; tests convert few sets.',
 [G, I, O, QC], [('part2index, index2part', 'schubertpy/*_grassmannian.py'), ('part2index{A,B,C,D}_inner, index2part{A,B,C,D}_inner', QC)]),
('C16', 'k-strict partitions and partition pairs correspond one to one',
 'On isotropic Grassmannians part2pair splits a k-strict partition into the documented pair and pair2part puts it back together, for every class, whether it is given as a class, its name, or a list; ordinary Grassmannians refuse both conversions.',
 ['inputs', 'configurations'], 'every isotropic space, every class',
 'A bijection over all spaces; tests convert few.',
 [I, O, QC], [('part2pair, pair2part', I), ('part2pair_inner, pair2part_inner', QC)]),
('C17', 'Lists of classes, generators and the point class are exact',
 'For every space the list of Schubert classes contains every class of the space exactly once and nothing else, the generators are exactly its special classes, and the point class is the one class whose codimension is the dimension of the space.',
 ['inputs', 'configurations'], 'every space, an arbitrary class',
 'Completeness of the list over all spaces; tests compare few lists.',
 [G, I, O, KS], [('schub_classes, generators, point_class', 'schubertpy/*_grassmannian.py'), ('k_strict partitions', KS)]),
('C18', 'Types of classes and the type swap symmetry',
 'The type of a class is 0, 1 or 2 as determined by its partition on even orthogonal Grassmannians and 0 on the other spaces; swapping types is an involution that exchanges types 1 and 2 and fixes type 0. On even orthogonal Grassmannians swapping the types of the factors swaps the types in the (quantum) product, exchanging q1 and q2 where they occur.',
 ['inputs', 'configurations'], 'every class of every space; every product on even orthogonal spaces',
 'The symmetry ties every pair of products together; tests swap few classes.',
 [O, AB, G, I, QC], [('schub_type, type_swap', O), ('miami_swap', AB), ('type_swap_inner', QC)]),
('C19', 'The rim hook product is the quantum product',
 'On an ordinary Grassmannian, the quantum product computed by the rim hook algorithm equals the quantum product computed from the quantum Pieri rule, for every pair of Schubert classes.',
 ['inputs', 'configurations'], 'every ordinary Grassmannian, every pair of classes',
 'Two independent algorithms must agree on all inputs; tests compare few spaces.',
 [G, PA], [('qmult_rh', G), ('remove_rim_hooks', PA)]),
('C20', 'Removing rim hooks',
 'Removing n-rim hooks from a partition with at most m rows until it fits the m x (n-m) rectangle yields the n-core when that fits, together with the number of rim hooks removed and their heights, whose total has the parity that determines the sign; and it reports that nothing remains exactly when no such removal leads into the rectangle.',
 ['inputs', 'configurations'], 'every rectangle, every partition with at most m rows',
 'The removal takes several steps on large partitions; tests remove few hooks.',
 [PA, G], [('remove_rim_hooks', PA), ('qmult_rh', G)]),
('C21', 'Every operation extends linearly to all argument forms',
 'Every operation on classes (products, Pieri, Giambelli, conversions, dualize, swaps) applied to a linear combination with arbitrary coefficients, including quantum parameters, is the same combination of its values on the classes. The result does not depend on whether the argument is given as text, as an expression, as a combination, as a class or, where allowed, as a list.',
 ['inputs', 'configurations'], 'every operation, every combination, every form of argument',
 'Operations x forms x combinations; tests use few forms per operation.',
 [LC, AB, MIX], [('LinearCombination.apply, apply2', LC), ('act_lc', AB)]),
('C22', 'Classes and combinations survive printing and parsing',
 'A class or linear combination printed as text and parsed again is equal to the original. Equality, ordering and hashing of classes agree with their partitions, and sums, differences, multiples, products and powers of classes and combinations have the values of the corresponding expressions.',
 ['inputs'], 'every class and combination, arbitrary partitions',
 'Round trips over all partitions; tests sample few.',
 [SC, LC], [('Schur', SC), ('LinearCombination', LC)]),
('C23', 'Results do not depend on what was computed before',
 'The result of an operation on a space depends only on the space and the arguments: not on which spaces were created or used before, on which operations ran before, or on how often it is repeated. Arguments are not modified.',
 ['histories', 'inputs', 'configurations'], 'every history of operations on other spaces followed by any operation',
 'Caches and module state leak only in particular histories, which single-call tests do not exercise.',
 [AB, G, I, O, QC, 'schubertpy/utils/hash.py'], [('memoisation (lru_cache, hashable arguments)', 'schubertpy/utils/hash.py'), ('per-object type data', 'schubertpy/*_grassmannian.py')]),
('C24', 'Spaces are accepted exactly when they exist',
 'A Grassmannian can be constructed exactly when the space exists (0 <= m <= N; N even and 2m <= N for symplectic, 2m <= N for orthogonal ones) and is refused otherwise. Its printed name, type data, degree of q and copies describe the space it was constructed for.',
 ['inputs', 'configurations'], 'all integers m, N',
 'Validation over all integers; tests construct few spaces.',
 [G, I, O], [('__init__, __str__, get_type_data, degree_q, clone', 'schubertpy/*_grassmannian.py')]),
('C25', 'Multiplication tables hold the products',
 'The classical and quantum multiplication tables of a space have a row and a column for every Schubert class, and each entry is the product of its row and column class; the matrix and the printed form agree with it.',
 ['inputs', 'configurations'], 'every space, every pair of classes',
 'A table covers all pairs; tests print few tables.',
 [MT, AB], [('MultTable, QMultTable', MT)]),
('C26', 'Partitions are validated and their basic operations are right',
 'A partition object accepts exactly the weakly decreasing lists of non-negative integers; its range test, padding, size and conjugate are those of the partition. Conjugating twice gives the partition back.',
 ['inputs'], 'every list of integers, every rectangle',
 'Quantifies over all lists; tests sample few.',
 [PA, QC], [('Partition', PA), ('part_conj', QC)]),
('C27', 'The expansion of a combination lists exactly its terms',
 'Expanding a linear combination into its classes lists exactly the classes that occur, each as often as its coefficient says and with or without the quantum parameters as asked; a plain number in the sum is listed, with its sign, as that multiple of the empty partition. The combination itself is left unchanged.',
 ['inputs'], 'every combination',
 'Quantifies over all shapes of expressions; tests sample few.',
 [LC], [('schur_expansion', LC)]),
('C28', 'Polynomials in special classes act by iterated multiplication',
 'Letting a polynomial in the special classes (with numbers and quantum parameters as coefficients) act on a combination gives the result of multiplying by the special classes one after the other and combining linearly, classically and quantumly. Multiplying by a special class as a general product gives the same result as the Pieri product.',
 ['inputs', 'configurations'], 'every space, every class, every polynomial',
 'Quantifies over all polynomials; tests sample few.',
 [AB], [('act, qact, act_lc, spec2num, num2spec', AB)]),
('C29', 'Schur polynomials',
 'to_polinomial_str(n) of a class is the text of the Schur polynomial of its partition in x1, ..., xn: the sum of the monomials of all semistandard tableaux of that shape (0 if there are more than n rows, 1 for the empty partition). Fewer than one variable and lists that are not partitions are refused with ValueError, and the class is left unchanged.',
 ['inputs'], 'every partition and number of variables', 'Quantifies over all partitions; tests sample few.',
 [SC, 'schubertpy/utils/mix.py'], [('to_polinomial_str', SC), ('SchurPol', 'schubertpy/utils/mix.py')]),
('C30', 'CSV comparison of multiplication data',
 'Two CSV files (label; label; product) are reported to match exactly when they hold the same rows: the same pair of labels with the same polynomial, in whatever order the rows come and however the polynomial is written. Repeated rows, empty rows and rows with fewer than three fields make no difference, and the answer does not depend on which file comes first.',
 ['inputs'], 'every pair of tables', 'Quantifies over all tables; no test reaches it.',
 ['schubertpy/csv_bijection.py'], [('csv_bijection', 'schubertpy/csv_bijection.py')]),
('C31', 'Drawings of partitions',
 'The ASCII, LaTeX and image drawings of a class show exactly the boxes of its partition, one per box and in its place; a combination is drawn as its terms side by side in the order of the expansion, each with its coefficient and with or without the q terms as asked. The LaTeX and image drawings carry a label naming the partition. The LaTeX picture is the one in the standalone document, and exporting an image writes a PNG file and leaves no figure open. No class, not even the empty partition, makes a drawing fail.',
 ['inputs'], 'every class', 'Quantifies over all classes; no test reads the drawings.',
 [SC, LC, 'schubertpy/utils/mix.py'], [('print_partition, latex, plot_partition, export_png', SC), ('draw_ascii_partition', LC), ('yd, embed_partition', 'schubertpy/utils/mix.py')]),
('C32', 'Combinations report their own structure',
 'A combination is valid exactly when it is a linear combination of classes with numbers as coefficients: products and powers of classes are not. Its length is the number of operands, is_operator names its outermost operation (+, *, ^) and refuses others, its operands are exactly the classes that occur in it with repetition, and zero padding is reported exactly when some class in it has it.',
 ['inputs'], 'every sum, product and power of classes',
 'Quantifies over all combinations; tests sample few.',
 [LC], [('is_valid, __len__, is_operator, list_schur_oprands, has_part_zero_padding', LC)]),
('C33', 'Isomorphic spaces have the same rings',
 'Where two of the supported spaces are isomorphic, their classical and quantum products, degrees of q and dualities correspond: Gr(m,N) and Gr(N-m,N) under conjugation, OG(n,2n+1) and OG(n+1,2n+2), IG(1,2n) and Gr(1,2n), and the exceptional cases in small dimension. The classical products of IG(n,2n) and OG(n,2n+1) agree up to the power of two given by the lengths of the partitions.',
 ['inputs', 'configurations'], 'every pair of isomorphic spaces, every pair of classes',
 'Independent formulas of different types must agree on all classes; tests look at one space at a time.',
 [G, I, O, QC], [('pieri and quantum pieri of each type', 'schubertpy/*_grassmannian.py'), ('pieri_set, count_comps', QC)]),
('C34', 'Gromov-Witten invariants are symmetric',
 'The coefficient of q^d times the dual of nu in the (quantum) product of lambda and mu does not depend on the order of the three classes, on every space and for every triple of Schubert classes.',
 ['inputs', 'configurations'], 'every space, every triple of classes',
 'Ties products and duality together over all triples; tests fix few products.',
 [AB, G, I, O], [('mult, qmult', AB), ('dualize', 'schubertpy/*_grassmannian.py')]),
('C35', 'Schur polynomials multiply as the Schubert classes do',
 'On an ordinary Grassmannian large enough for both factors, the product of two Schubert classes, each class replaced by its Schur polynomial in as many variables as there are rows, is the product of the two polynomials.',
 ['inputs', 'configurations'], 'every pair of partitions, every number of variables',
 'Ties the product and the polynomials together over all pairs; no test combines them.',
 [G, SC, 'schubertpy/utils/mix.py'], [('mult', AB), ('to_polinomial_str, SchurPol', SC)]),
('C36', 'Requests without a meaning are refused',
 'Acting with a Schubert class that is not special, a type-dependent conversion on a space without types (pairs of a partition and its tableau outside even orthogonal Grassmannians or in an ordinary one, types of partitions), a skew height of partitions that are not contained in each other, an operand or a text that is no combination: each raises an error and never returns a value.',
 ['inputs', 'configurations'], 'every class with several rows on every space without other meaning, every pair of partitions',
 'Silent nonsense for some input would be a wrong mathematical claim; tests sample a few errors.',
 [AB, G, I, O, SC], [('act, qact', AB), ('part2pair, pair2part, schub_type', 'schubertpy/*_grassmannian.py'), ('Partition.skew_partition_height', 'schubertpy/partition.py'), ('operators', SC)]),
('C37', 'Giambelli polynomials are the classical formulas',
 'giambelli and qgiambelli on an ordinary Grassmannian are, for every class, equal to the Jacobi-Trudi determinant in the special classes; on symplectic and odd orthogonal Grassmannians, for every class with at most two rows, they are the two-row formula of Buch, Kresch and Tamvakis (quantum, symplectic: with q/2 in place of the special class one step beyond the last).',
 ['inputs', 'configurations'], 'every space, every class',
 'The formulas in the literature are an oracle independent of the recursion in the code; tests hold a few polynomials.',
 [AB, G, I, O], [('giambelli, qgiambelli', AB), ('pieri, qpieri', 'schubertpy/*_grassmannian.py')]),
('C38', 'Polynomials in arbitrary classes are evaluated as products',
 'toS and qtoS of a polynomial in arbitrary Schubert classes (products, powers, sums, numbers and quantum parameters, in any argument form) give the same combination of classes as multiplying step by step with mult and qmult; a first factor of a product may be such a polynomial; giambelli and qgiambelli of a polynomial are the polynomial of the Giambelli polynomials.',
 ['inputs', 'configurations'], 'every space, every pair of classes in a family of polynomials',
 'The documented use of the package; tests evaluate a few fixed polynomials.',
 [AB, 'schubertpy/lc.py'], [('toS, qtoS, mult, qmult, giambelli', AB), ('apply', 'schubertpy/lc.py')]),
('C39', 'Computations that run at the same time do not disturb each other',
 'When one computation is interrupted at any point and another one (on the same object, on another space, or on one of another type) runs to its end before it goes on, as happens between two threads, both give the results they give alone, and the spaces still describe themselves.',
 ['inputs', 'schedules', 'configurations'], 'every operation, every class, every switch point, every other computation',
 'A test runs one thing at a time; a value kept for a moment in a shared object is wrong only for one schedule.',
 [AB, G, I, O, QC, 'schubertpy/utils/hash.py'], [('all operations', AB), ('memo tables', 'schubertpy/utils/hash.py')]),
('C40', 'Every product is the product in the (quantum) cohomology ring',
 'mult and qmult of two Schubert classes of a space (and the rim hook product on ordinary Grassmannians) are the classical and the quantum product: the structure constants that follow from the published Pieri rules by linear algebra alone, for every pair of classes and every power of the quantum parameters.',
 ['inputs', 'configurations'], 'every space, every pair of classes',
 'The central promise of the package; the products go through Giambelli polynomials and iterated multiplication, so one wrong branch for some partition makes structure constants wrong for a few pairs only.',
 [AB, G, I, O, QC], [('mult, qmult, giambelli_rec_inner, act_lc', AB), ('Pieri rules', 'schubertpy/*_grassmannian.py'), ('qmult_rh', G)]),
]

NA = {
}

TECH = {
'default': 'solver-based symbolic execution of the real Python code (z3): path enumeration with symbolic class parts, assertions discharged per path, counterexamples replayed',
}
NOTE = ('Every path of the implementation over the stated bounds is decided by z3 (path feasibility and the negated assertion); '
        'bounds: {b}. Trusts the proxy-integer engine in symex/, z3, CPython and sympy; each run cross-validates sampled paths against '
        'the unmodified code, and every counterexample is replayed there before it is reported.')

def bounds(i):
    import ast
    t = ast.parse(open(os.path.join(ROOT, 'harness', i.lower() + '.py')).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'BOUNDS':
            return ast.literal_eval(n.value)

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for (i, title, st, over, qt, why, files, mech) in P:
        assert len(title) <= 80, title
        f.write(json.dumps({'id': i, 'title': title, 'statement': st,
                            'quantifier': {'over': over, 'text': qt}, 'why_tests_cant': why,
                            'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}) + '\n')

man = {'version': 1,
       'setup_cmd': 'python3 check.py --selftest',
       'checks': [{'property': i, 'quick_cmd': 'python3 check.py ' + i,
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': TECH.get(i, TECH['default']), 'level': 'model_checking',
                   'level_note': NOTE.format(b=bounds(i))}
                  for (i, *_r) in P if i not in NA],
       'not_applicable': [{'property': i, 'reason': r} for i, r in NA.items()],
       'notes': 'No hooks: the code under test is loaded unmodified from /repo.'}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
