"""technique and level_note per property (for MANIFEST.json)"""
T = "TLA+/TLC model checking + TLC trace validation of recorded API calls"
R = "TLA+/TLC model checking + replay of TLC behaviours + TLC trace validation"
END = " Trusts TLC, the recorder and g++."
NOTES = {
 "C01": (T, "TLC proves the contraction algorithm equal to AB-BA on Fock space for all term pairs over 2-3 modes up to "
            "length 3(4); every recorded call (exhaustive small pairs, seeded random pairs up to length 7, 1-4 indices, "
            "6 prefactor/index type combinations) is decided by the same semantics." + END),
 "C02": (T, "TLC proves the symbolic contraction algorithm under every assignment of the symbols for all pairs up to "
            "length 2 over 2(3) names plus numbers; recorded calls and the parsed output of both commutator programs are "
            "decided under every assignment by the same semantics." + END),
 "C03": (T, "Prefactor as a state machine over bags of deltas, all histories up to 3(4) deltas over 3 names; recorded "
            "histories (including self multiplication and every order/orientation of up to 4 deltas) decided step by step." + END),
 "C04": (T, "Adjoint/product histories checked against matrices on Fock space for 2(3) modes; recorded operators with "
            "1-4 indices, monomials and terms decided by the same definitions." + END),
 "C05": (T, "Order axioms and the insertion algorithm checked for all lists up to 3 terms; recorded comparisons of all "
            "pairs and reductions of exhaustive/random lists decided by TLC." + END),
 "C06": (R, "All histories of up to 5(6) calls on 2 momenta x 2 spins checked against occupation numbers; all behaviours "
            "of length 4(5) replayed into the real class, random histories on up to 10 momenta validated step by step." + END),
 "C07": (T, "Pair enumeration checked against Fermi-sea expectation values on Fock space for N<=3(4), all momenta and all "
            "filling patterns; recorded lists for chains up to N=6(8) and all fillings decided by the same semantics." + END),
 "C08": (T, "Same semantics as C07; recorded particle numbers (integer vectors) equal the squared norm on Fock space." + END),
 "C09": (T, "Ring distance and lookups checked for lengths 1..8(12) against reachability and nearest sites; recorded "
            "chains (lengths up to 40, 1/64-spacing coordinates in the whole period) decided by the same definitions." + END),
 "C10": (T, "Torus version of C09 for extents up to 4x4(6x6); recorded square and rectangular lattices. The header needs "
            "Blaze, which is not installed: a stand-in with Blaze's contract is used." + END),
 "C11": (R, "Iterator arithmetic checked against unit steps; all behaviours of length 2(3) of the model replayed into the "
            "real iterators; random histories and standard algorithms validated." + END),
 "C12": (T, "Enumeration checked against the sets of triples for N<=4(5); listings, index functions and conjugate bases "
            "of real chains, square lattices and Brillouin zones decided by the same definitions." + END),
 "C13": (T, "Closed form of the rows is model-checked against the commutator computed on Fock space/by Wick's theorem "
            "(rings 3,4(5)); every row the real builders produce (chains up to 8(10), square lattices) must equal it. "
            "Blaze is not installed: a stand-in that checks Blaze's append/finalize contract is used." + END),
 "C14": (T, "Closed form model-checked to be the Fourier transform of the C13 rows (N=2,4); every row of the real "
            "matrices must equal it. Unit lattice spacing; Blaze stand-in as in C13." + END),
 "C15": (T, "Pair accumulation (full and symmetric) checked against the squared norm on Fock space for Slater determinants "
            "(N=2(3)); every pair value and total of the real observable for arbitrary integer two-point functions and "
            "vectors on rings 1-4(5) is decided by Wick's theorem. Blaze stand-in for 2d lattices." + END),
 "C16": (T, "Objects with own/shared scratch vectors checked for all interleavings of two objects (shared one is shown to "
            "fail); recorded histories of evaluations (copies, moves, 1d/2d, all variants) decided by the formula; "
            "trigonometric sums with validated fixed-point tables (tolerance 2^-13 relative)." + END),
 "C17": (T, "Table algorithm and moments of the dispersion checked for extents up to 5(6); every entry of recorded tables "
            "decided with validated fixed-point sine/cosine tables (absolute error below 1e-6)." + END),

 "C18": (T, "Stage machine checked against the Taylor polynomial for all schedules of several integrators sharing scratch "
            "vectors (overlapping steps are shown to fail and excluded); every step of recorded histories with integer "
            "data, mixed sizes and matrix kinds is decided exactly. Blaze stand-in as in C13." + END),
 "C21": (T, "Sort/merge/duplicate test and predicate scans checked against definitions for all small lists and matrices; "
            "recorded histories and answers of the real types decided by the same definitions. Blaze stand-in." + END),
 "C23": (T, "Step-by-step products, conjugation and tolerance comparisons checked on a grid; recorded answers of the real "
            "helpers for all number types and values around the tolerance decided by the same definitions." + END),
    "C19": (T, "Time loop with rounding checked against the schedule for all ends, intervals and rounding errors; every "
            "program of src/hubbard is run, each row followed by a fixed-point simulation of the specification (coefficients "
            "to 4e-4, observables to 0.7%), other intervals/ends/thread counts compared with the schedule. Blaze/spdlog stand-ins." + END),
    "C20": (T, "Checkpoint writes with a crash after every file operation, scanning of output files and merging of options "
            "checked for all small histories; recorded checkpoints, crash images (a process killed inside a write), scans, "
            "truncations, response files and headers of the real code decided by the same modules. Blaze/spdlog stand-ins." + END),
    "C22": (T, "Regions with all interleavings of reads and writes model-checked for five layouts of the result cells (3 threads); "
            "every parallel region of the headers runs on a controlled OpenMP runtime (teams up to 64, schedules printed by "
            "TLC, random, in order) and TLC decides conflict freedom of the recorded accesses and equality of the results." + END),
    "C24": (T, "Item-by-item printing checked against the text functions, which are injective on all small terms; every "
            "text recorded from the real stream operators (both arrow settings) must be exactly that text." + END),
}
NOT = {}
