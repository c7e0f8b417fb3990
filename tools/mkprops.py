#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the wording of the list has one source).
import json, os
I = "include/ieompp/"
H = I + "models/hubbard_real_space/"
M = I + "models/hubbard_momentum_space/"
A = "src/hubbard/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "Commutator of numeric operator products equals AB - BA",
  "For any two terms (a number times a product of fermionic creators/annihilators with numeric indices) whose operator counts are not both odd, the terms that the commutator routine appends to its output sum, as an operator on Fock space, exactly to A*B - B*A. What the output container held before stays unchanged in front of them, and the two inputs are not modified. This holds for one, two, three or more indices per operator and for integer, real and complex prefactors.",
  ["inputs"], "all pairs of terms of any length (n*m even), all index patterns (repeated, disjoint, overlapping), all prefactors, any prior output content",
  "No test calls the commutator at all; its sign rule depends on the position of the contraction in both factors and on both lengths, so only an identity over all states and all patterns settles it.",
  [I+"algebra/commutator.hpp", I+"algebra/anticommutator.hpp", I+"algebra/operator/operator.hpp", I+"algebra/term/term.hpp"],
  [("sum over contractions (k,l) with sign (-1)^(m(n-k)+l-1)", I+"algebra/commutator.hpp:commutate"), ("contraction test", I+"algebra/anticommutator.hpp:anticommutates")],
  [("c", "output list of terms", I+"algebra/commutator.hpp:commutate")], ["return of commutate(a, b, c)"])

prop("C02", "Symbolic commutator equals AB - BA for every value of the symbols",
  "For terms whose operators carry symbolic indices (possibly mixed with numeric ones), the appended terms with their Kronecker deltas sum exactly to A*B - B*A on Fock space under every assignment of values to the symbols: a delta is produced exactly for each pair of differing symbolic indices that are contracted, and numeric indices are compared by value. The commutator tables printed by the two hubbard_commutators programs are such identities for the Hubbard Hamiltonian's terms.",
  ["inputs", "programs"], "all pairs of symbolic/mixed terms with n*m even, all assignments of the symbols; the two shipped programs",
  "No test exercises symbolic indices beyond a type trait; the programs' output is never compared with anything.",
  [I+"algebra/commutator.hpp", I+"algebra/anticommutator.hpp", I+"algebra/kronecker.hpp", I+"symbolic/prefactor.hpp", I+"algebra/operator/is_symbolic.hpp", A+"hubbard_commutators_momentum_space.cpp", A+"hubbard_commutators_real_space.cpp"],
  [("Kronecker collected per differing symbolic index", I+"algebra/anticommutator.hpp:anticommutator"), ("numeric index mismatch forbids contraction", I+"algebra/anticommutator.hpp:anticommutates")],
  [], ["return of commutate", "stdout of hubbard_commutators_*"])

prop("C03", "Symbolic prefactors multiply and canonicalise without changing meaning",
  "A symbolic prefactor denotes a number times a product of Kronecker deltas; multiplying it by numbers, deltas, lists of deltas or other prefactors (itself included) yields the product of the numbers and the union of the deltas with multiplicity. Two deltas compare equal exactly if they join the same pair of indices in either orientation. Canonical ordering keeps number and deltas, is idempotent, and brings any two prefactors with the same deltas - in whatever order and orientation - to the identical sequence, sorted by first then second index, each delta's smaller index first.",
  ["inputs", "histories"], "all sequences of multiplications and orderings, all delta multisets and index names",
  "There is no test of prefactors or deltas; order dependence only shows for particular permutations of at least two or three deltas.",
  [I+"symbolic/prefactor.hpp", I+"algebra/kronecker.hpp"],
  [("sort of deltas", I+"symbolic/prefactor.hpp:order_kroneckers"), ("orientation", I+"algebra/kronecker.hpp:order"), ("accumulating products", I+"symbolic/prefactor.hpp:operator*=")],
  [("value", "number", I+"symbolic/prefactor.hpp"), ("kroneckers", "deltas with multiplicity", I+"symbolic/prefactor.hpp")], ["fields of the prefactor after each call"])

prop("C04", "Conjugation and products of operators and terms obey the adjoint algebra",
  "For operators, monomials and terms, conjugation (in place or as a copy) is the Hermitian adjoint on Fock space: it reverses the operator order, swaps creators and annihilators, conjugates the prefactor, is an involution and maps a product to the reversed product of conjugates; products (also with itself) concatenate operators and multiply prefactors. Equality, same-index and is-conjugate predicates answer exactly that relation for every number of indices, and building an operator from indices and reading the indices back returns them unchanged. Net creation number, spin and momentum reported for a term are what the term changes in any state and flip sign under conjugation.",
  ["inputs", "histories"], "all operators with 1..4 indices, all monomials/terms of any length incl. empty and products with self, all prefactors",
  "Tests look at a few fixed operators and monomials of one or two operators; term-level functions are not instantiated anywhere.",
  [I+"algebra/operator/operator.hpp", I+"algebra/operator/get_index.hpp", I+"algebra/operator/make.hpp", I+"algebra/monomial/monomial.hpp", I+"algebra/term/term.hpp", I+"algebra/term/checks.hpp"],
  [("reverse + flip", I+"algebra/monomial/monomial.hpp:conjugate"), ("term conjugate", I+"algebra/term/term.hpp:conjugate"), ("charges", I+"algebra/term/checks.hpp")])

prop("C05", "Operator and term order is total; unique-term lists preserve the sum",
  "The smaller/greater comparisons on operators and terms are mutually converse strict total orders consistent with equality: creators come before annihilators, then indices are compared lexicographically; terms are ordered by length, then operator by operator, ignoring prefactors. Reducing a list of terms to unique terms yields a list sorted by that order in which no operator product occurs twice and every product carries the sum of its prefactors, so the represented operator is unchanged.",
  ["inputs"], "all pairs/triples of operators and terms, all term lists in any order with any repetitions",
  "No test uses the orders or the reduction; a broken order only shows for particular pairs and list orders.",
  [I+"algebra/operator/order.hpp", I+"algebra/term/order.hpp", I+"algebra/term/list.hpp"],
  [("comparison", I+"algebra/operator/order.hpp"), ("lower_bound merge", I+"algebra/term/list.hpp:copy_as_unique_terms")])

prop("C06", "Excited Fermi sea follows fermionic occupation dynamics",
  "Starting from the filled Fermi sea (exactly the modes below the Fermi energy, both spins), applying creators and annihilators, monomials (rightmost first) or terms to the excited Fermi sea tracks exactly the occupation number state: creating an occupied or annihilating an empty mode makes the state vanish and it stays vanished; otherwise the recorded created and annihilated particles are precisely the difference to the initial sea, without duplicates (and in ascending order once a whole operator or product has been applied, so that equal states look equal). The state is reported as the initial sea exactly when it does not vanish and no difference remains, whatever the order in which excitations were made and undone.",
  ["inputs", "histories"], "all dispersions/fillings, all histories of create/annihilate/apply calls",
  "Tests apply short fixed histories at half filling in one dimension; the bookkeeping depends on the history.",
  [M+"excited_fermi_sea.hpp"],
  [("undo lookup in created/annihilated lists", M+"excited_fermi_sea.hpp:create/annihilate"), ("right-to-left application", M+"excited_fermi_sea.hpp:apply_monomial")],
  [("vanishes", "state is the zero vector", M+"excited_fermi_sea.hpp"), ("created_particles", "modes filled on top of the sea", M+"excited_fermi_sea.hpp"), ("annihilated_particles", "holes in the sea", M+"excited_fermi_sea.hpp")],
  ["fields and return values after each call"])

prop("C07", "List of non-vanishing Fermi-sea expectation values is complete and exact",
  "For a momentum-space basis, its conjugate, a dispersion and a Fermi energy, the list of contributions contains every pair (left, right) of basis operators whose operator product has a non-zero contribution in the Fermi sea exactly once, no other pair and no vanishing entry, and its value is the Fermi-sea expectation of right-conjugate/left products with the basis' three-operator elements taken as 2*c^+c^+c plus the contracted creator when their last two momenta coincide. This holds for every chain size, momentum and filling.",
  ["inputs", "configurations"], "all N, q, fillings",
  "The test compares counts/values for one half-filled configuration.",
  [M+"non_vanishing_expectation_values.hpp", M+"excited_fermi_sea.hpp", M+"basis.hpp"],
  [("enumeration of pairs and delta corrections", M+"non_vanishing_expectation_values.hpp")])

prop("C08", "Particle number equals the quadratic form of its expectation values",
  "The particle-number observable of a coefficient vector v is the sum over all listed contributions of value * v[left] * conj(v[right]) (real part), each contribution counted once, for any coefficient vector and basis; it equals the exact Fermi-sea expectation of the squared operator sum, is the occupation (0 or 1) of the starting mode for the initial vector, and scales with |z|^2 when the vector is multiplied by z.",
  ["inputs", "configurations"], "all coefficient vectors, N, q, fillings",
  "Not instantiated by any test.",
  [M+"particle_number.hpp", M+"non_vanishing_expectation_values.hpp"],
  [("sum of contributions", M+"particle_number.hpp:operator()")])

prop("C09", "Periodic chain is a consistent ring",
  "For a periodic chain of any length, in real and in momentum space, site coordinates are equidistant, and looking up the site of (or closest to) a coordinate inverts them, including coordinates between the last site and the period's end, which belong to the first site if they are closer to it. Neighbours are previous and next modulo the length, unique neighbours count each bond once, neighbouring is symmetric and (from two sites on) equivalent to ring distance one, and the lattice distance is the shortest way around the ring (symmetric, translation invariant, at most half the length). Iterating visits every site exactly once in order.",
  ["inputs", "configurations"], "all lengths, spacings, sites, coordinates in one period",
  "Tests use one or two lengths and few coordinates; wrap-around, odd lengths and half-way coordinates are not reached.",
  [I+"lattices/periodic_chain.hpp", I+"iterators/integer_iterator.hpp"],
  [("modular neighbours", I+"lattices/periodic_chain.hpp:neighbors"), ("coordinate wrap", I+"lattices/periodic_chain.hpp:operator()/closest"), ("min(d, N-d)", I+"lattices/periodic_chain.hpp:lattice_distance")])

prop("C10", "Periodic square lattice is a consistent torus, rectangular ones included",
  "For a periodic square lattice with any extents (equal or not), in real and momentum space, the site number is a bijection with the pair of column and row positions, coordinates and site numbers invert each other, the neighbours of a site are exactly the four sites one step away along the axes modulo the extents, unique neighbours count each bond once, neighbouring is symmetric, and the lattice distance is the sum of the two ring distances. Reading or looking up a site never leaves the range of sites.",
  ["inputs", "configurations"], "all extents, spacings, sites",
  "The square-lattice test is not built here (needs Blaze) and only uses square extents.",
  [I+"lattices/periodic_square_lattice.hpp"],
  [("index arithmetic", I+"lattices/periodic_square_lattice.hpp:index/x_index/y_index"), ("modular neighbours", I+"lattices/periodic_square_lattice.hpp:neighbors")])

prop("C11", "Integer iterators are random-access iterators over a range",
  "The site iterator behaves as a random-access iterator over consecutive integers: increments, decrements, compound and binary additions and subtractions, indexing, differences and all comparisons agree with integer arithmetic, post-forms return the old position, it+n-n==it, and (a-b)+b==a. Any sequence of operations leaves the iterator at the position given by integer arithmetic, so standard algorithms over a lattice see each site once.",
  ["inputs", "histories"], "all positions, offsets and operation sequences",
  "Tests only run range-for loops (pre-increment and inequality).",
  [I+"iterators/integer_iterator.hpp"], [("arithmetic operators", I+"iterators/integer_iterator.hpp")])

prop("C12", "Operator bases are complete, duplicate free and invertibly indexed",
  "Every basis lists each of its operator products exactly once: one creator per site (one-operator part) and, in the three-operator bases, every spin-up-creator, spin-down-creator, spin-down-annihilator product - all site triples in real space, exactly the momentum-conserving triples for the start momentum in momentum space. The index function of three-operator elements is the inverse of the listing, stays in range, and sizes are N, N+N^3 and 1+N^2; the conjugate basis lists the adjoints in the same order.",
  ["configurations", "inputs"], "all lattice sizes and start momenta, all index triples",
  "Tests check one or two sizes and reuse the same index formula.",
  [H+"basis.hpp", M+"basis.hpp"], [("nested loops and index formulas", H+"basis.hpp, "+M+"basis.hpp")])

prop("C13", "Real-space equation-of-motion matrix is the projected commutator with H",
  "For the Hubbard Hamiltonian with hopping J and interaction U on a periodic lattice with at least three sites per direction, every row of the generated real-space matrix holds exactly the coefficients of the commutator of H with that row's basis operator projected (trace-orthogonally) on the basis; the kinetic variants hold its U=0 part on the one-operator basis, and the normal-ordered variant holds the coefficients of the commutator expanded in operators that are normal-ordered with respect to the given (translation-invariant, not necessarily symmetric) two-point function. Entries are written once per position in increasing column order, hopping obeys the lattice's neighbour relation, and the matrix is translation invariant.",
  ["configurations", "inputs"], "all chain lengths >= 3 (and square lattices), all J and U",
  "Matrix builders need Blaze and are never compiled by the build or tests; the only possible oracle is the operator algebra itself.",
  [H+"blaze_sparse.hpp", H+"basis.hpp", I+"algebra/commutator.hpp", H+"blaze_sparse_no.hpp"],
  [("row assembly", H+"blaze_sparse.hpp:init_matrix/init_kinetic_matrix")])

prop("C14", "Momentum-space equation-of-motion matrix conserves momentum and is exact",
  "For every lattice with unit spacing, start momentum, dispersion (hopping) and interaction, the generated momentum-space matrix has the one-operator energy plus mean-field shift in its first diagonal entry, the exact coupling U/(2N) between the one-operator and each three-operator element in both directions, and on the remaining diagonal the kinetic commutator of each three-operator element plus the mean-field shift; it has no other entries and is symmetric.",
  ["configurations", "inputs"], "all N, q, dispersions, U",
  "The builder needs Blaze and is not compiled by the build or tests.",
  [M+"blaze_sparse.hpp", M+"basis.hpp"], [("row assembly", M+"blaze_sparse.hpp:init_matrix")])

prop("C15", "Site occupation equals the Wick expectation of the operator sum",
  "The site-occupation observable for a coefficient vector equals the exact free-fermion (Wick) expectation of the squared operator sum for arbitrary two-point functions: each pairwise basis expectation value (1-1, 1-3, 3-1, 3-3) is the Wick value, the total is the sum over all pairs of coefficient products, and the variant that exploits inversion symmetry gives the same number as the full one whenever the two-point function is symmetric. Results are real (the imaginary part may only be a rounding error), non-negative for physical two-point functions and do not depend on earlier evaluations.",
  ["inputs", "configurations"], "all two-point functions, coefficient vectors, lattice sizes",
  "One test evaluates fixed vectors at one size in one mode.",
  [H+"site_occupation.hpp", H+"basis.hpp"], [("Wick contractions", H+"site_occupation.hpp:expectation_value_*"), ("pair loops", H+"site_occupation.hpp:operator()")])

prop("C16", "Fermi jump is the squared Fourier amplitude, independent of earlier use",
  "The Fermi-jump observables return |sum_i exp(i k r_i)(h_i + sum_jk (2<c_j^+ c_k> - delta_jk) h_ijk)|^2 for the three-operator basis and |sum_i exp(i k r_i) h_i|^2 for the one-operator and normal-ordered forms, for every wave vector k, coefficient vector, two-point function and lattice. The value depends only on the arguments: evaluating other vectors, bases or lattices before, with this or another object, copying or moving the object changes nothing.",
  ["inputs", "configurations", "histories"], "all vectors, lattice sizes in any order of use, two-point functions, copies",
  "The test evaluates single objects of one size; state kept across objects and copies is invisible to it.",
  [H+"fermi_jump/1d.hpp", H+"fermi_jump/2d.hpp", H+"fermi_jump_no.hpp"], [("Fourier coefficients and normal ordering sum", H+"fermi_jump/1d.hpp")])

prop("C17", "Two-point tables and dispersion are exact lattice functions",
  "The tabulated half-filled two-point functions depend only on the lattice distance of the two sites, equal the filling at distance zero and sin(k_F r)/(pi r) (in two dimensions the product form in the sum and the difference of the two distances) elsewhere, and are symmetric and translation invariant. The tabulated dispersion equals -2J times the sum of cos(k.a) over the lattice vectors for every momentum, is even and periodic in k, linear in J, bounded by 2J per direction and sums to zero over the zone.",
  ["configurations", "inputs"], "all lattice sizes, site pairs, fillings, hoppings",
  "Tests compare one size with the same formula.",
  [H+"expectation_value.hpp", I+"models/hubbard/dispersion.hpp"], [("value tables", H+"expectation_value.hpp"), ("cosine sum", I+"models/hubbard/dispersion.hpp")])

prop("C18", "RK4 step is the fourth-order Taylor step for any linear system",
  "One Runge-Kutta step on a linear system u' = A u replaces u by (1 + hA + (hA)^2/2 + (hA)^3/6 + (hA)^4/24) u, for every matrix (dense, sparse or given by a function), vector and step size; n steps apply that n times. The result depends only on the matrix, the vector and the step size, never on vectors, sizes or integrators used before; the matrix is not modified.",
  ["inputs", "histories", "configurations"], "all matrices, vectors, step sizes, interleavings of several integrators of different sizes",
  "The integrator is never compiled by the build or tests; errors of high order or hidden buffers are invisible to short smoke runs.",
  [I+"ode/rk4.hpp", I+"types/multiply_assign.hpp"], [("stages k1..k4", I+"ode/rk4.hpp:step")])

prop("C19", "Simulation programs output on schedule, once per interval and at the end",
  "A simulation program writes the initial observation at t=0, then one observation each time the measurement interval's number of steps has been taken (after every step for interval zero or one), the last step included, until the end time is reached; rows come in increasing time, and their times are the number of integration steps multiplied by the step. The state observed in a row is the initial basis operator integrated exactly that many steps with the Hamiltonian of the given options, and the row holds the program's observable (coefficients, site occupation, Fermi jump, particle number) of that state at the given filling. None of this depends on the measurement interval, the end time or the number of threads.",
  ["configurations", "histories"], "all step sizes, end times, measurement and checkpoint intervals",
  "No test runs any simulation program; interval arithmetic with floating-point times goes wrong only for particular combinations.",
  [A+"hubbard_real_1d_rk4.cpp", A+"hubbard_momentum_1d_rk4.cpp", A+"hubbard_real_1d_rk4_jump.cpp", A+"hubbard_real_1d_kinetic_rk4.cpp", A+"include/common.hpp"],
  [("has_time_interval_passed", A+"include/common.hpp"), ("main loop", A+"hubbard_real_1d_rk4.cpp:main")])

prop("C20", "Checkpoints and option files restore exactly what was saved",
  "Every checkpoint written in a run can be read back with the same time and coefficient vector, also when a crash interrupts a later write of that run: earlier checkpoints stay intact, and an information file that names a vector file vouches for the complete vector it was written with, also where a run overwrites the files of an earlier one. Truncating an output file keeps exactly the lines up to the given row, unchanged and in order, and the line reader delivers every row once, skipping comments and blank lines, and then ends. A response file written by a run and read by another yields the same options, options on the command line win over it and it wins over the defaults, the header of an output file lists the options in effect, and a missing response file is reported. The files of a run lie beside its output file and are named after it, whatever directories and dots its path has, and a matrix written to a file reads back as the same matrix.",
  ["crash_points", "histories", "inputs"], "all vectors and times, all output files, all option sets, crash points of a write",
  "No test touches checkpoint or option files.",
  [A+"include/checkpoint.hpp", A+"include/application.hpp", A+"include/cli.hpp", I+"io/line.hpp"],
  [("write_checkpoint_file/read_checkpoint_file", A+"include/checkpoint.hpp"), ("clean_output_file", A+"include/checkpoint.hpp"), ("response file", A+"include/application.hpp")])

prop("C21", "Triplet lists and matrix predicates represent and judge matrices exactly",
  "A triplet list denotes the matrix whose entry is the sum of all triplets at its position; sorting, merging columns and dropping zeros never change that matrix, merging a sorted list leaves at most one triplet per position in order with no zeros, and the duplicate test answers exactly whether one exists, for empty lists too. Function-backed matrices return the generating function's values, compare equal exactly if all entries do, and the squareness, symmetry, hermiticity and zero tests answer exactly for every matrix, within the given tolerance; a sparse matrix filled entry by entry in any order reads back exactly those entries, and a printed function matrix shows every entry at its place and leaves the format of the stream as it was.",
  ["inputs", "histories"], "all triplet lists in any order, all matrices",
  "Neither header is compiled by the build or tests.",
  [I+"types/triplet.hpp", I+"types/matrix_check.hpp", I+"types/function_matrix.hpp", I+"types/blaze/matrix_insert.hpp"], [("merge", I+"types/triplet.hpp"), ("predicates", I+"types/matrix_check.hpp, "+I+"types/function_matrix.hpp")])

prop("C22", "Results do not depend on thread count or schedule",
  "Every computation that runs in an OpenMP parallel region (dispersion, two-point tables, conjugate bases, site occupation, Fermi jump, products with function matrices, the tight-binding theory program) gives the same result for any number of threads, more than iterations included, and any interleaving: each contribution is added exactly once and no thread overwrites another's.",
  ["schedules", "configurations"], "all thread counts (also larger than the iteration count) and interleavings",
  "Tests run with the default thread count once and cannot provoke lost updates.",
  [H+"site_occupation.hpp", H+"expectation_value.hpp", I+"models/hubbard/dispersion.hpp", I+"openmp.hpp"],
  [("per-thread accumulators", H+"site_occupation.hpp"), ("disjoint writes", I+"models/hubbard/dispersion.hpp")])

prop("C23", "Number helpers agree with complex arithmetic",
  "For real, integer and complex numbers the conjugate, product-with-conjugate, sum of conjugate products, real-part, equality-within-tolerance and zero-within-tolerance helpers agree with complex arithmetic: conjugation is an involution fixing real numbers, a*conj(b) and its conjugate-sum 2Re(a conj b) are exact, equality within (absolute) tolerance is symmetric and looks at both real and imaginary parts.",
  ["inputs"], "all numbers of every supported type",
  "Only used indirectly by tests with purely real values.",
  [I+"types/number/complex.hpp", I+"types/number/is_equal.hpp", I+"types/number/is_zero.hpp"], [("overloads per number type", I+"types/number/complex.hpp")])

prop("C24", "Printed operators, terms, prefactors and tuples can be read back unambiguously",
  "The text written for an operator, monomial, term, delta, prefactor or tuple lists every part exactly once in order - dagger for creators only, all indices in their positions with spin arrows (if switched on), the prefactor's number (a bare sign for minus one, nothing for one) before its deltas, then the operators - so that distinct values have distinct texts and parsing the text gives the value back. Empty products print as their prefactor only, and printing never reads outside of the value.",
  ["inputs"], "all operators with 1..4 indices, monomials, terms, prefactors, tuples",
  "No test compares any printed text.",
  [I+"algebra/operator/io.hpp", I+"algebra/monomial/io.hpp", I+"algebra/term/io.hpp", I+"symbolic/prefactor.hpp", I+"algebra/kronecker.hpp", I+"tuple.hpp", I+"symbolic/index.hpp"],
  [("stream operators", I+"algebra/operator/io.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
