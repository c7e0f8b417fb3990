"""One function per property; see DESIGN.md for what each decides."""

import kit

SAFE = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def inv(*names):
    return SAFE + "".join(f"INVARIANT {n}\n" for n in names)


def c01(c):
    """Commutator algorithm model-checked against AB-BA on Fock space; recorded calls decided by TLC."""
    b = c.pool.submit(c.compile, "c01.cpp")
    c.model("Commutator", inv("Correct"), must=("Contract", "Skip"), min_distinct=1000,
            consts=dict(Modes="{1,2}", MaxLen="3", Prefactors="{<<2,1>>, <<0,-3>>}"))
    c.model("Commutator", inv("Correct"), consts=dict(Modes="{1,2,3}", MaxLen="3" if c.thorough else "2",
                                                      Prefactors="{<<1,0>>}"))
    if c.thorough:
        c.model("Commutator", inv("Correct"), consts=dict(Modes="{1,2}", MaxLen="4", Prefactors="{<<1,0>>}"))
    c.conform(b.result(), "CommutatorTrace")


CHECKS = {"C01": c01}


# ---------------------------------------------------------------- C02
import json
import os
import re

import kit

_OP = re.compile(r"c(\^†)?_\{([^}]*),(↑|↓)\}")
_DELTA = re.compile(r"δ_\{([^,}]*),([^}]*)\}")


def _sym_term(s):
    """Parse one printed term of the commutator programs."""
    m = _OP.search(s)
    if not m:
        return None
    head, tail = s[:m.start()].strip(), s[m.start():]
    ops = [dict(c=bool(d), i=[x, "1" if sp == "↑" else "0"]) for d, x, sp in _OP.findall(tail)]
    if _OP.sub("", tail).strip():
        return None
    if not head.endswith("⋅"):
        return None
    head = head[:-1].strip()
    ks = [list(x) for x in _DELTA.findall(head)]
    num = _DELTA.sub("", head).replace("⋅", "").strip()
    if num in ("", "-"):
        num += "1"
    try:
        p = float(num)
    except ValueError:
        return None
    if p != int(p):
        return None
    return dict(p=[int(p), 0], ks=ks, ops=ops)


def _sym_events(prog, text):
    """Turn the text of a commutator program into events."""
    bad = [dict(op="unparsable", ok=True, text=text[:1500])]
    ev = [dict(op="begin", ok=True, sc=prog)]
    names = {}

    def ascii_names(t):
        def f(n):
            return names.setdefault(n, "n%d" % len(names))
        for o in t["ops"]:
            o["i"][0] = f(o["i"][0])
        t["ks"] = [[f(a), f(b)] for a, b in t["ks"]]
        return t

    def emit(x, y, out, space, what, elements):
        ts = [[ascii_names(t) for t in l] for l in (x, y, out)]
        ev.append(dict(op="table", ok=True, space=space, what=what, elements=elements, x=ts[0], y=ts[1]))
        ev.append(dict(op="symcomm", ok=True, sym=[True, False], x=ts[0], y=ts[1], before=[], after=ts[2]))

    def terms(lines):
        r = [_sym_term(s) for s in lines]
        return None if None in r else r

    lines = text.split("\n")
    if prog.endswith("momentum_space"):
        cur = None
        blocks = []
        for s in lines:
            m = re.match(r"^\t\[ (.*?)  ,  (.*) \]=$", s)
            if m:
                cur = (m.group(1), m.group(2), [])
                blocks.append(cur)
            elif s.startswith("\t\t"):
                if cur is None:
                    return bad
                cur[2].append(s.strip())
        if len(blocks) != 4:
            return bad
        for k, (a, b, out) in enumerate(blocks):
            x, y, o = terms(a.split(" + ")), terms([b]), terms(out)
            if None in (x, y, o):
                return bad
            emit(x, y, o, "momentum", ("kin", "int")[k % 2], (1, 3)[k // 2])
        return ev
    # real space: Hamiltonian terms, then for one and three operators the kinetic and interaction parts
    sec, what = None, None
    ham = dict(kin=[], int=[])
    res = {}
    for s in lines:
        t = s.strip()
        if not t:
            continue
        if t == "Kinetic terms in Hamiltonian":
            sec, what = "H", "kin"
        elif t == "Interaction terms in Hamiltonian":
            sec, what = "H", "int"
        elif t == "One operator:":
            sec = "1"
        elif t == "Three operators:":
            sec = "3"
        elif t == "Kinetic terms:":
            what = "kin"
            res[(sec, what)] = []
        elif t == "Interaction terms:":
            what = "int"
            res[(sec, what)] = []
        elif sec == "H":
            ham[what].append(t)
        elif (sec, what) in res:
            res[(sec, what)].append(t)
        else:
            return bad
    one = [dict(p=[1, 0], ks=[], ops=[dict(c=True, i=["ρ", "1"])])]
    three = [dict(p=[1, 0], ks=[], ops=[dict(c=True, i=["ρ_1", "1"]), dict(c=True, i=["ρ_2", "0"]),
                                        dict(c=False, i=["ρ_3", "0"])])]
    if set(res) != {("1", "kin"), ("1", "int"), ("3", "kin"), ("3", "int")}:
        return bad
    for (n, w), out in res.items():
        x, o = terms(ham[w]), terms(out)
        if x is None or o is None or not x:
            return bad
        emit(x, json.loads(json.dumps(one if n == "1" else three)), o, "real", w, int(n))
    return ev


def c02(c):
    """Symbolic contraction algorithm model-checked under all assignments; recorded calls and the output of both
    commutator programs decided by TLC."""
    progs = ("hubbard_commutators_momentum_space", "hubbard_commutators_real_space")
    src = os.path.join(kit.REPO, "src", "hubbard")
    bins = c.compile_all([dict(src="c02.cpp")] + [dict(src=os.path.join(src, p + ".cpp"), asan=False) for p in progs])
    c.model("SymbolicCommutator", inv("Correct"), must=("ContractEqual", "ContractWithDelta", "Skip"),
            consts=dict(Names='{"i", "j"}', MaxLen="2"), min_distinct=1000)
    if c.thorough:
        c.model("SymbolicCommutator", inv("Correct"), consts=dict(Names='{"i", "j", "k"}', MaxLen="2"))
    c.conform(bins[0], "SymbolicTrace")
    for p, b in zip(progs, bins[1:]):
        def output():
            rc, out = kit.sh([b], 120, cwd=os.path.join(c.dir, "run"))
            if rc != 0:
                return [dict(op="died", ok=True, text=out[:500])]
            return _sym_events(p, out)
        c.conform_events(p, output, "SymbolicTrace")


CHECKS["C02"] = c02


# ---------------------------------------------------------------- C03
def c03(c):
    """Prefactor state machine (bag of deltas) model-checked; histories of real prefactors decided by TLC."""
    b = c.pool.submit(c.compile, "c03.cpp")
    c.model("Prefactor", inv("MeaningPreserved", "OrderIsCanonical", "OrderIdempotent", "OrderUnique",
                             "EqualityIsEquivalence"),
            must=("MulNumber", "MulDelta", "MulPrefactor", "MulSelf", "DoOrder"),
            consts=dict(Names="1..3", MaxDeltas="4" if c.thorough else "3", Numbers="{<<-1,0>>, <<2,1>>}"),
            min_distinct=500)
    c.conform(b.result(), "PrefactorTrace")


CHECKS["C03"] = c03


# ---------------------------------------------------------------- C04
def c04(c):
    """Adjoint/product histories model-checked against Fock space; recorded operators, monomials, terms decided by TLC."""
    b = c.pool.submit(c.compile, "c04.cpp")
    c.model("Adjoint", inv("AdjointCorrect", "Involution", "Antihomomorphism", "ProductComposes", "ChargeIsChange",
                           "ChargeFlips"),
            must=("Conjugate", "Multiply", "Square"),
            consts=dict(Modes="{1,2,3}" if c.thorough else "{1,2}", MaxLen="2", Prefactors="{<<2,1>>, <<0,-3>>}"))
    c.conform(b.result(), "AdjointTrace")


CHECKS["C04"] = c04


# ---------------------------------------------------------------- C05
def c05(c):
    """Orders model-checked to be strict total orders, list reduction model-checked; recorded comparisons/reductions
    decided by TLC."""
    b = c.pool.submit(c.compile, "c05.cpp")
    c.model("TermOrder", inv("ReductionCorrect", "OrdersAreTotal"), must=("AppendEnd", "Merge", "InsertBefore"),
            consts=dict(Indices="{<<0>>, <<1>>}", OrderLen="2", MaxLen="2" if c.thorough else "1",
                        MaxList="3", Numbers="{<<1,0>>, <<-1,2>>}"))
    c.model("TermOrder", inv("ReductionCorrect", "OrdersAreTotal"), must=("AppendEnd", "Merge", "InsertBefore"),
            consts=dict(Indices="{<<0,0>>, <<0,1>>, <<1,0>>}", OrderLen="2" if c.thorough else "1", MaxLen="1",
                        MaxList="3", Numbers="{<<1,0>>}"))
    c.conform(b.result(), "TermOrderTrace")


CHECKS["C05"] = c05


# ---------------------------------------------------------------- C06
def _sea_behaviours(c, momenta, depth):
    """All histories of the specification with the given length, one line of numbers each."""
    res = c.behaviours("FermiSea", inv("Emit"), consts=dict(Momenta="0..%d" % (momenta - 1), Spins="0..1",
                                                            MaxOps=str(depth), Dump="TRUE"))
    p = os.path.join(c.dir, "run", "sea-%d-%d.txt" % (momenta, depth))
    with open(p, "a") as f:
        for s in res:
            sea, ops = json.loads(s)
            f.write(" ".join(str(x) for x in [len(sea)] + sea + ops) + "\n")
    if len(res) < 1000:
        raise kit.Broken("too few behaviours: %d" % len(res))
    return p, len(res)


def c06(c):
    """Occupation dynamics model-checked (bookkeeping is faithful in every reachable state); all histories of the
    model up to a length replayed into the real class, random histories validated step by step."""
    b = c.pool.submit(c.compile, "c06.cpp")
    invs = inv("NoDuplicates", "Faithful", "Vanishing", "IsSeaIffNoDifference")
    c.model("FermiSea", invs, must=("CreateNew", "CreateFillsHole", "CreateBlocked", "HoleNew", "HoleUndoes",
                                    "HoleBlocked", "StayDead"),
            consts=dict(Momenta="0..1", Spins="0..1", MaxOps="6" if c.thorough else "5", Dump="FALSE"))
    p, n = _sea_behaviours(c, 2, 5 if c.thorough else 4)
    c.notes["replayed_behaviours"] = n
    c.conform(b.result(), "FermiSeaTrace", args=["--behaviours", p])


CHECKS["C06"] = c06


# ---------------------------------------------------------------- C07, C08
def _sea_model(c):
    c.model("SeaExpectation", inv("StepCorrect", "Symmetric"), must=("ListPair", "OmitPair"),
            consts=dict(Sizes="{1,2,3,4}" if c.thorough else "{1,2,3}"), min_distinct=500)


def c07(c):
    """Pair enumeration with delta corrections model-checked against Fermi-sea expectation values on Fock space for
    every momentum and every filling pattern; recorded lists decided by the same semantics."""
    b = c.pool.submit(lambda: c.compile("c07.cpp", shim=True))
    _sea_model(c)
    c.conform(b.result(), "SeaExpectationTrace", args=["--contributions"])


def c08(c):
    """Same semantics; recorded particle numbers compared with the squared norm of the operator sum on Fock space."""
    b = c.pool.submit(lambda: c.compile("c07.cpp", shim=True))
    _sea_model(c)
    c.conform(b.result(), "SeaExpectationTrace", args=["--number"])


CHECKS["C07"] = c07
CHECKS["C08"] = c08


# ---------------------------------------------------------------- C09, C10
LATTICE = ("DistanceIsShortestPath", "Symmetric", "BondsOnce", "NeighboringIffOne", "LookupNearest", "SitesFound")


def c09(c):
    """Ring distance model-checked against breadth-first reachability, wrap-and-round lookup against the nearest
    site; recorded chains decided by the same definitions."""
    b = c.pool.submit(c.compile, "c09.cpp")
    ext = "{<<n>> : n \\in 1..%d}" % (12 if c.thorough else 8)
    # the period ends one spacing after the last site (real and momentum space alike)
    c.model("Lattice", inv(*LATTICE), must=("Widen", "WrapUp", "WrapDown", "Round"),
            consts=dict(Extents=ext, U="8", UpperSlack="8"), min_distinct=500)
    # non-vacuity: wrapping right after the last site is wrong, and the model says so
    c.model("Lattice", inv(*LATTICE), consts=dict(Extents=ext, U="8", UpperSlack="0"), expect_violation=True)
    c.conform(b.result(), "LatticeTrace")


def c10(c):
    """Torus distance and neighbourhood model-checked against breadth-first reachability; recorded square and
    rectangular lattices decided by the same definitions."""
    b = c.pool.submit(lambda: c.compile("c10.cpp", shim=True))
    m = 6 if c.thorough else 4
    c.model("Lattice", inv(*LATTICE), must=("Widen", "Round"),
            consts=dict(Extents="{<<x, y>> : x \\in 1..%d, y \\in 1..%d} \\cup {<<5>>}" % (m, m), U="8", UpperSlack="8"),
            min_distinct=300)
    c.conform(b.result(), "LatticeTrace")


CHECKS["C09"] = c09
CHECKS["C10"] = c10


# ---------------------------------------------------------------- C11
def c11(c):
    """Iterator arithmetic model-checked against unit steps; all histories of the model up to a length replayed into
    the real iterators, random histories and standard algorithms validated step by step."""
    b = c.pool.submit(c.compile, "c11.cpp")
    c.model("Iterator", inv("MatchesUnitSteps", "Laws"), must=("Do",),
            consts=dict(Low="-2", High="3", Names="1..2", Offsets="-2..3", MaxOps="2", Dump="FALSE"))
    res = c.behaviours("Iterator", inv("Emit"), consts=dict(Low="0", High="3", Names="1..2", Offsets="-1..2",
                                                            MaxOps="2", Dump="TRUE"))
    if c.thorough:  # longer histories of one iterator
        for k, (n, o) in (("3", ("1..2", "{1}")), ("4", ("{1}", "-1..2"))):
            d = dict(Low="0", High="3", Names=n, Offsets=o, MaxOps=k)
            c.model("Iterator", inv("MatchesUnitSteps", "Laws"), must=("Do",), consts=dict(d, Dump="FALSE"))
        res = res + c.behaviours("Iterator", inv("Emit"), consts=dict(Low="0", High="3", Names="{1}", Offsets="{2}",
                                                                      MaxOps="4", Dump="TRUE"))
    p = os.path.join(c.dir, "run", "iterators.txt")
    with open(p, "w") as f:
        for s in res:
            start, ops = json.loads(s)
            f.write(" ".join(str(x) for x in [len(start)] + start + [y for o in ops for y in o]) + "\n")
    c.notes["replayed_behaviours"] = len(res)
    c.conform(b.result(), "IteratorTrace", args=["--behaviours", p])


CHECKS["C11"] = c11


# ---------------------------------------------------------------- C12
def c12(c):
    """Enumeration of the bases model-checked against the sets of all site triples / momentum conserving triples;
    listings, index functions and adjoint listings of the real bases decided by the same definitions."""
    b = c.pool.submit(lambda: c.compile("c12.cpp", shim=True))
    c.model("Basis", inv("Complete", "IndexInverts", "Size"), must=("AddReal", "AddMomentum"),
            consts=dict(Sizes="1..%d" % (5 if c.thorough else 4)))
    c.conform(b.result(), "BasisTrace")


CHECKS["C12"] = c12


# ---------------------------------------------------------------- C13
def c13(c):
    """Closed form of the rows model-checked against the commutator with the Hamiltonian (normal ordering by Wick's
    theorem, which is itself checked against traces on Fock space); every row of the matrices that the real builders
    produce is decided by that form."""
    src = "-I" + os.path.join(kit.REPO, "src", "hubbard")
    b = c.pool.submit(lambda: c.compile("c13.cpp", shim=True))
    glue = [c.pool.submit(lambda n=n, f=f: c.compile("c13g.cpp", name=n, shim=True, flags=[src] + f))
            for n, f in (("c13g", []), ("c13gn", ["-DNORMAL"]))]
    c.model("LiouvillianModel", inv("NormalOrderedCorrect", "OrthogonalCorrect", "TraceCorrect"), min_distinct=200,
            consts=dict(Rings="{3,4,5}" if c.thorough else "{3,4}", Params="{<<1,2>>, <<0,2>>}",
                        TraceRings="{2,3}" if c.thorough else "{2}"))
    c.conform(b.result(), "LiouvillianTrace")
    for g in glue:
        c.conform(g.result(), "LiouvillianTrace", shards=2)


CHECKS["C13"] = c13


# ---------------------------------------------------------------- C14
def c14(c):
    """Closed form of the momentum-space rows model-checked to be the Fourier transform of the real-space rows (which
    C13's model derives from the commutator); every row of the real matrices decided by that form."""
    b = c.pool.submit(lambda: c.compile("c14.cpp", shim=True))
    c.model("MomentumMatrix", inv("IsFourierTransform"), min_distinct=1000,
            consts=dict(Rings4="{2,4}", Js="{-1,2}" if c.thorough else "{2}", Us="{2,6}" if c.thorough else "{2}"))
    c.conform(b.result(), "MomentumMatrixTrace")


CHECKS["C14"] = c14


# ---------------------------------------------------------------- C15
def c15(c):
    """Pair-by-pair accumulation (full and symmetric) model-checked against the squared norm on Fock space for Slater
    determinants; every pair value and total of the real observable decided by Wick's theorem / the model's sum."""
    b = c.pool.submit(lambda: c.compile("c15.cpp", shim=True))
    c.model("SiteOccupation", inv("IsSquaredNorm", "PairsByWick"), must=("Full", "Diagonal", "Below2"), min_distinct=1000,
            consts=dict(N="2", Orbitals="{<<>>, <<<<1,0>>>>, <<<<1,2>>>>, <<<<1,-1>>>>, <<<<1,0>>, <<1,1>>>>}",
                        Vectors="1..8" if c.thorough else "{1,2,3}"))
    if c.thorough:
        c.model("SiteOccupation", inv("IsSquaredNorm", "PairsByWick"),
                consts=dict(N="3", Orbitals="{<<<<1,1,0>>>>, <<<<1,-1,2>>>>}", Vectors="{1,2}"))
    c.conform(b.result(), "SiteOccupationTrace")


CHECKS["C15"] = c15


# ---------------------------------------------------------------- C16
def c16(c):
    """Objects, copies and overlapping evaluations with their own scratch vectors model-checked (a shared scratch vector
    is shown to fail); normal-ordering sum checked by Wick's theorem; recorded histories decided by the same formulas."""
    b = c.pool.submit(lambda: c.compile("c16.cpp", shim=True))
    consts = dict(Sizes="{1,2}", Turns="{0,1,3}" if c.thorough else "{1}", MaxObjects="2", Seeds="{1,2}")
    c.model("FermiJump", inv("DependsOnArgumentsOnly", "IsWickAmplitude"), must=("Make", "Copy", "Begin", "Site", "Finish"),
            consts=dict(consts, Shared="FALSE"), min_distinct=1000)
    c.model("FermiJump", inv("DependsOnArgumentsOnly"), expect_violation=True, consts=dict(consts, Shared="TRUE"))
    c.conform(b.result(), "FermiJumpTrace", env={"OMP_NUM_THREADS": "2"})


CHECKS["C16"] = c16


# ---------------------------------------------------------------- C17
def c17(c):
    """Table filling/lookup model-checked against the product form, dispersion against the moments of the hopping
    operator (closed walks); every entry of recorded tables decided with validated fixed-point trigonometric tables."""
    b = c.pool.submit(lambda: c.compile("c17.cpp", shim=True))
    m = 6 if c.thorough else 5
    c.model("TwoPoint", inv("TableIsProductForm", "Moments"), must=("Fill", "Step"), min_distinct=100,
            consts=dict(Extents="{<<a, b>> : a \\in 1..%d, b \\in 1..%d}" % (m, m),
                        Walks="{<<3>>, <<4>>, <<6>>, <<3, 4>>, <<6, 4>>, <<4, 4>>}", MaxSteps="6"))
    c.conform(b.result(), "TwoPointTrace")


CHECKS["C17"] = c17


# ---------------------------------------------------------------- C18
SYSTEMS = """{[A |-> a, p |-> s[1], q |-> s[2], u |-> v] : a \\in {<<<<<<2,0>>>>>>, <<<<<<0,1>>>>>>}, s \\in {<<1,1>>, <<1,2>>}, v \\in {<<<<1,0>>>>}}
  \\cup {[A |-> a, p |-> s[1], q |-> s[2], u |-> v] : a \\in {<<<<<<0,0>>, <<1,0>>>>, <<<<-1,0>>, <<0,0>>>>>>, <<<<<<1,1>>, <<2,0>>>>, <<<<0,-1>>, <<1,0>>>>>>},
       s \\in {<<1,1>>, <<-1,2>>}, v \\in {<<<<1,0>>, <<0,2>>>>}}"""


def c18(c):
    """Stage machine model-checked against the Taylor polynomial for sequences of steps with shared scratch vectors; every
    step of recorded histories (several integrators, sizes and matrix kinds interleaved) decided exactly by the polynomial."""
    b = c.pool.submit(lambda: c.compile("c18.cpp", shim=True))
    consts = dict(Systems=SYSTEMS, Integrators="2", Rounds="3" if c.thorough else "2")
    c.model("Rk4", inv("IsTaylorStep"), must=("Start", "Stage", "Finish", "Replace"), consts=dict(consts, Overlap="FALSE"), min_distinct=1000)
    c.model("Rk4", inv("IsTaylorStep"), consts=dict(consts, Overlap="TRUE"), expect_violation=True)
    c.assumptions.append("two steps with the same vector type do not overlap in time (the model shows that the scratch vectors are shared)")
    c.conform(b.result(), "Rk4Trace", env={"OMP_NUM_THREADS": "3"})


CHECKS["C18"] = c18


# ---------------------------------------------------------------- C21
def c21(c):
    """Sorting/merging/duplicate test and the predicate scans model-checked against their definitions for all small lists
    and matrices; recorded list histories and predicate answers of the real types decided by the definitions."""
    b = c.pool.submit(lambda: c.compile("c21.cpp", shim=True))
    c.model("Triplets", inv("SortKeeps", "MergeKeeps", "DuplicateTest"), must=("Add", "Sort", "Begin", "Merge"), min_distinct=1000,
            consts=dict(Cols="0..2", Values="{<<-1,0>>, <<0,0>>, <<1,0>>}" if not c.thorough else "{<<-1,0>>, <<0,0>>, <<1,0>>, <<0,1>>}",
                        MaxLen="4" if c.thorough else "3"))
    c.model("MatrixCheck", inv("Answers"), must=("Visit",), min_distinct=1000,
            consts=dict(Dims="{<<1,1>>, <<2,2>>, <<1,2>>, <<2,1>>, <<2,3>>, <<3,2>>}" if c.thorough else "{<<1,1>>, <<2,2>>, <<1,2>>, <<2,1>>}",
                        Entries="{<<0,0>>, <<1,0>>, <<0,1>>, <<0,-1>>, <<1,1>>, <<1,-1>>}", Tol="1"))
    c.model("MatrixCheck", inv("Answers"), must=("Visit",), min_distinct=1000,
            consts=dict(Dims="{<<2,2>>}", Entries="{<<0,0>>, <<1,0>>, <<2,0>>, <<0,1>>, <<0,2>>, <<0,-1>>, <<2,1>>}", Tol="2"))
    if c.thorough:
        c.model("MatrixCheck", inv("Answers"), consts=dict(Dims="{<<3,3>>}", Entries="{<<0,0>>, <<0,1>>, <<0,-1>>}", Tol="1"))
    c.conform(b.result(), "TripletsTrace")


CHECKS["C21"] = c21


# ---------------------------------------------------------------- C23
def c23(c):
    """Step-by-step products and the algebra of conjugation and tolerances model-checked on a grid; every recorded answer of
    the helpers (all number types, values around the tolerance limits) decided by the same definitions."""
    b = c.pool.submit(lambda: c.compile("c23.cpp"))
    c.model("Numbers", inv("Product", "Algebra", "Tolerance"), must=("Mul", "Swap"), min_distinct=1000,
            consts=dict(Parts="-3..3" if c.thorough else "-2..2", Tols="0..3"))
    c.conform(b.result(), "NumbersTrace")


CHECKS["C23"] = c23


# ---------------------------------------------------------------- C24
def c24(c):
    """Printing item by item model-checked against the text functions, which are shown to be injective on all small terms;
    the text the real operators, products, prefactors, terms, tuples and symbols print must be exactly that text."""
    b = c.pool.submit(lambda: c.compile("c24.cpp"))
    b2 = c.pool.submit(lambda: c.compile("c24.cpp", name="c24na", flags=["-DIEOMPP_DISABLE_ARROWS"]))
    idx = "{<<<<\"n\", 1>>, <<\"b\", TRUE>>>>, <<<<\"n\", 11>>, <<\"b\", FALSE>>>>, <<<<\"s\", \"k\">>, <<\"b\", TRUE>>>>}"
    deltas = "{<<>>, <<<<\"a\", \"b\">>>>, <<<<\"a\", \"b\">>, <<\"b\", \"c\">>>>}"
    vals = "{[p |-> [value |-> <<v, 0>>, cx |-> FALSE, deltas |-> d], ops |-> o] : v \\in {-44, -4, 0, 4, 5, 8}, d \\in %s, o \\in UNION {[1..n -> BOOLEAN \\X %s] : n \\in 0..%d}}" % (
        deltas, idx, 1)
    cvals = "{[p |-> [value |-> <<v, w>>, cx |-> TRUE, deltas |-> d], ops |-> o] : v \\in {-4, 4, 6}, w \\in {-4, 0, 8}, d \\in %s, o \\in UNION {[1..n -> BOOLEAN \\X %s] : n \\in 0..1}}" % (deltas, idx)
    two = "{[p |-> [value |-> <<v, 0>>, cx |-> FALSE, deltas |-> d], ops |-> o] : v \\in {4, 8}, d \\in %s, o \\in [1..2 -> BOOLEAN \\X %s]}" % (deltas, idx)
    for v in ([vals, cvals, two] if c.thorough else [vals]):
        c.model("Text", inv("IsText", "Injective"), must=("PrintItem",), min_distinct=1000, consts=dict(Values=v, Arrows="TRUE"))
    c.conform(b.result(), "TextTrace", label="arrows")
    c.conform(b2.result(), "TextTrace", label="plain", shards=2)


CHECKS["C24"] = c24


# ---------------------------------------------------------------- C19
PROGRAMS = ("hubbard_real_1d_rk4", "hubbard_real_1d_rk4_coefficients", "hubbard_real_1d_kinetic_rk4",
            "hubbard_real_1d_kinetic_rk4_coefficients", "hubbard_real_1d_rk4_jump", "hubbard_real_2d_rk4_jump",
            "hubbard_momentum_1d_rk4", "hubbard_trivial", "hubbard_real_1d_kinetic_theory", "hubbard_dispersion_1d")


def c19(c):
    """The time loop (with rounding of the accumulated times) model-checked against the schedule of observations and the
    fixed-point simulation against conserved quantities; every row the real programs print is followed by that simulation,
    and runs with other intervals, ends and thread counts must print exactly the scheduled rows."""
    import random
    import apps
    built = {p: c.pool.submit(lambda p=p: apps.build(c, p)) for p in PROGRAMS}
    c.model("RunLoop", inv("OnSchedule", "Ends", "Increasing"), must=("Measure", "Skip", "Step", "Final"),
            consts=dict(D="30", MaxSteps="12" if c.thorough else "8", Intervals="0..6" if c.thorough else "0..4"))
    gs = "{<<<<5000,0>>,<<0,5000>>>>, <<<<5000,2500>>,<<2500,5000>>>>, <<<<5000,-5000>>,<<-5000,2500>>>>}"
    c.model("Program", inv("NormKept", "Places", "PairsExact", "Uniform"), must=("Step",), min_distinct=100,
            consts=dict(N="2", Js="{0,1}", Us="{-2,0,2}", Widths="{<<1,16>>,<<1,20>>}", MaxSteps="6", Gs=gs))
    rng = random.Random(c.seed)
    R = apps.Runner(c)

    def others(tend, dt, n):
        steps = tend[0] * dt[1] // (tend[1] * dt[0])
        fixed = [(0, tend, 2), (2, tend, 1), (3, tend, 3), (steps, tend, 1), (steps + 7, tend, 1), (1, (0, 1), 1), (2, (1, 100), 4)]
        more = []
        for _ in range(n):
            k = rng.randint(1, 4 * steps - 1)      # quarter steps, multiples of a step included
            more.append((rng.randint(0, steps), (k * dt[0], 4 * dt[1]), rng.randint(1, 16)))
        return fixed + more

    def job(name, k, p, n):
        p = dict(dict(J2=2, dt=(1, 8), tend=(1, 1), filling=None), **p)
        b = built[name].result()
        c.conform_events(f"{name}-{k}", lambda rr=others(p["tend"], p["dt"], n): apps.simulation(R, b, p, rr), "ProgramTrace")

    ch, kin = dict(kind="chain"), dict(kind="kinetic")
    jobs = [("hubbard_real_1d_rk4_coefficients", dict(ch, obs="coefficients", d=[3], U2=2)),
            ("hubbard_real_1d_rk4_coefficients", dict(ch, obs="coefficients", d=[4], J2=1, U2=-3, dt=(1, 10))),
            ("hubbard_real_1d_kinetic_rk4_coefficients", dict(kin, obs="coefficients", d=[5], J2=3, dt=(1, 10), tend=(3, 2))),
            ("hubbard_real_1d_kinetic_rk4_coefficients", dict(kin, obs="coefficients", d=[8], J2=-2, dt=(1, 5), tend=(2, 1))),
            ("hubbard_real_1d_rk4", dict(ch, obs="occupation", d=[3], U2=4, dt=(1, 10), filling=(1, 2))),
            ("hubbard_real_1d_rk4", dict(ch, obs="occupation", d=[4], U2=1, dt=(1, 16), tend=(1, 2), filling=(1, 4), threads=3)),
            ("hubbard_real_1d_rk4", dict(ch, obs="occupation", d=[4], J2=-3, U2=8, dt=(1, 16), filling=(5, 6), threads=2)),
            ("hubbard_real_1d_kinetic_rk4", dict(kin, obs="occupation", d=[6], dt=(1, 10), filling=(1, 3), threads=2)),
            ("hubbard_real_1d_kinetic_rk4", dict(kin, obs="occupation", d=[7], J2=1, dt=(1, 4), tend=(3, 1), filling=(4, 5))),
            # wide steps: every step of the integrator changes the norm
            ("hubbard_real_1d_kinetic_rk4", dict(kin, obs="occupation", d=[6], dt=(1, 2), tend=(4, 1), filling=(2, 3))),
            ("hubbard_real_1d_kinetic_rk4_coefficients", dict(kin, obs="coefficients", d=[5], dt=(1, 2), tend=(4, 1))),
            ("hubbard_real_1d_rk4", dict(ch, obs="occupation", d=[3], U2=1, dt=(1, 4), tend=(2, 1), filling=(2, 3))),
            ("hubbard_real_1d_rk4_jump", dict(ch, obs="jump", d=[4], U2=4, dt=(1, 10), filling=(1, 4))),
            ("hubbard_real_1d_rk4_jump", dict(ch, obs="jump", d=[3], J2=1, U2=-2, filling=(1, 2), threads=3)),
            ("hubbard_real_1d_rk4_jump", dict(ch, obs="jump", d=[4], J2=-3, U2=3, dt=(1, 16), tend=(1, 2), filling=(4, 5), threads=2)),
            ("hubbard_real_2d_rk4_jump", dict(kind="square", obs="jump", d=[3, 3], U2=4, dt=(1, 10), tend=(1, 2), M=4, k=[1, 1])),
            ("hubbard_real_2d_rk4_jump", dict(kind="square", obs="jump", d=[3, 3], J2=1, U2=-2, tend=(1, 2), M=8, k=[3, 1], threads=3)),
            ("hubbard_real_2d_rk4_jump", dict(kind="square", obs="jump", d=[4, 3], U2=2, dt=(1, 16), tend=(5, 16), M=8, k=[3, 1], threads=2)),
            ("hubbard_momentum_1d_rk4", dict(kind="momentum", obs="number", d=[3], U2=2, dt=(1, 16))),
            ("hubbard_momentum_1d_rk4", dict(kind="momentum", obs="number", d=[6], J2=1, U2=1, dt=(1, 16), threads=3))]
    if c.thorough:
        for k in range(12):
            jobs.append((PROGRAMS[k % 2], dict(ch, obs=("occupation", "coefficients")[k % 2], d=[rng.randint(3, 5)], J2=rng.choice([1, 2, -1]),
                                               U2=rng.randint(-4, 6), dt=rng.choice([(1, 16), (1, 20), (1, 12)]),
                                               filling=(rng.randint(1, 4), 5) if k % 2 == 0 else None, threads=rng.randint(1, 4))))
            jobs.append((PROGRAMS[2 + k % 2], dict(kin, obs=("occupation", "coefficients")[k % 2], d=[rng.randint(3, 12)], J2=rng.choice([1, 2, -3]),
                                                   dt=rng.choice([(1, 16), (1, 10), (1, 12)]), tend=(2, 1),
                                                   filling=(rng.randint(1, 6), 7) if k % 2 == 0 else None, threads=rng.randint(1, 4))))
            jobs.append((PROGRAMS[4], dict(ch, obs="jump", d=[rng.randint(3, 5)], J2=rng.choice([1, 2, -1]), U2=rng.randint(-4, 6),
                                           dt=rng.choice([(1, 16), (1, 20)]), filling=(rng.randint(1, 4), 5), threads=rng.randint(1, 4))))
        jobs += [("hubbard_real_2d_rk4_jump", dict(kind="square", obs="jump", d=[4, 3], J2=1, U2=2, dt=(1, 16), tend=(1, 4), M=4, k=[1, 0])),
                 ("hubbard_real_2d_rk4_jump", dict(kind="square", obs="jump", d=[3, 4], J2=1, U2=-2, dt=(1, 16), tend=(1, 4), M=12, k=[5, 1])),
                 ("hubbard_momentum_1d_rk4", dict(kind="momentum", obs="number", d=[6], J2=-2, U2=-1, dt=(1, 20), threads=2))]
    futs = [c.pool.submit(job, name, k, p, 6 if c.thorough else 2) for k, (name, p) in enumerate(jobs)]
    runs = [((1, 100), (20, 1), 100), ((1, 100), (15, 1), 7), ((1, 10), (100, 1), 3), ((3, 100), (25, 1), 11), ((7, 1000), (7, 1), 50), ((1, 64), (20, 1), 64),
            # many steps: neighbouring rows differ in late digits
            ((1, 1000), (1000, 1), 997), ((1, 1024), (110, 1), 7), ((1, 4096), (9, 1), 1),
            # intervals beyond a byte, a thousand, two bytes; none within the run
            ((1, 100), (40, 1), 257), ((1, 1000), (41, 1), 2049), ((1, 100), (700, 1), 65537), ((1, 10), (30, 1), 10**6)]
    if c.thorough:
        runs += [((1, 10000), (101, 1), 331), ((1, 1000), (1001, 1), 1), ((3, 1000), (2500, 1), 1000)]
    for _ in range(60 if c.thorough else 6):
        dt = (rng.randint(1, 9), rng.choice([100, 128, 250, 1000]))
        runs.append((dt, (rng.randint(1, 1500) * dt[0], dt[1]), rng.randint(0, 120)))
    futs.append(c.pool.submit(lambda: c.conform_events("times", lambda: apps.times(R, built["hubbard_real_1d_kinetic_rk4"].result(), runs), "ProgramTrace")))
    few = [((1, 10), (31, 1), 7), ((1, 100), (25, 1), 1201), ((3, 1000), (2, 1), 11), ((1, 64), (9, 1), 64), ((1, 50), (21, 1), 10**5)]
    for n in PROGRAMS[:2] + PROGRAMS[3:5]:
        futs.append(c.pool.submit(lambda n=n: c.conform_events("times-" + n, lambda: apps.times(R, built[n].result(), few), "ProgramTrace")))
    for f, n in ((apps.trivial, "hubbard_trivial"), (apps.theory, "hubbard_real_1d_kinetic_theory"), (apps.dispersion, "hubbard_dispersion_1d")):
        futs.append(c.pool.submit(lambda f=f, n=n: c.conform_events(n, lambda: f(R, built[n].result()), "ProgramTrace")))
    errs = []
    for f in futs:
        try:
            f.result()
        except kit.Broken as ex:
            errs.append(ex)
    if errs and not c.violations:
        raise errs[0]


CHECKS["C19"] = c19


# ---------------------------------------------------------------- C20
def c20(c):
    """Checkpoint writing with crashes between all writes, truncation line by line and the precedence of options are
    model-checked; the real functions are driven with crashes after every number of written bytes, random files and
    histories of runs with response files."""
    import os
    import apps
    b = c.pool.submit(lambda: c.compile("c20.cpp", shim=True, asan=False, flags=["-I" + os.path.join(kit.REPO, "src", "hubbard")],
                                        libs=["-ldl"] + apps.LIBS))
    c.model("Checkpoint", inv("Durable"), must=("Call", "Open", "Piece", "VectorDone", "Time", "Crash"),
            consts=dict(Vectors="{<<>>, <<1>>, <<1,2>>, <<2,1,1>>}", MaxCalls="4" if c.thorough else "3", TimeFirst="FALSE",
                        ClearFirst="TRUE", Old="2"))
    c.model("Checkpoint", inv("Durable"), expect_violation=True,
            consts=dict(Vectors="{<<1,2>>}", MaxCalls="1", TimeFirst="TRUE", ClearFirst="TRUE", Old="0"))
    c.model("Checkpoint", inv("Durable"), expect_violation=True,
            consts=dict(Vectors="{<<1,2>>}", MaxCalls="1", TimeFirst="FALSE", ClearFirst="FALSE", Old="1"))
    c.model("OutputFile", inv("KeepsRows"), must=("CopyLine",),
            consts=dict(Alphabet="{<<>>, <<32, 35>>, <<35, 49>>, <<49, 9, 50>>, <<32, 55>>}", MaxLines="6" if c.thorough else "5", MaxEntries="4"))
    c.model("Options", inv("Precedence", "Replays"), must=("Run",), consts=dict(Keys='{"a", "b"}', Values="{1, 2}" if c.thorough else "{1}", MaxRuns="3"))
    c.conform(b.result(), "PersistTrace", env={"TMPDIR": c.dir})


CHECKS["C20"] = c20


# ---------------------------------------------------------------- C22
_WRAP = ["memcpy", "memmove", "memset", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
         "pthread_mutex_lock", "pthread_mutex_unlock"]


def _link(c, name, objs, flags=()):
    """None: the code uses parts of OpenMP that our runtime does not have"""
    out = os.path.join(c.dir, "obj", name)
    rc, txt = kit.sh(["g++"] + list(objs) + ["-o", out, "-lpthread"] + list(flags), 300)
    if rc != 0:
        if "undefined reference to `GOMP_" in txt or "undefined reference to `omp_" in txt:
            c.notes[name] = "needs parts of OpenMP that the controlled runtime does not have; only run on the real one"
            return None
        raise kit.Broken("linking %s failed:\n%s" % (name, txt[-2000:]))
    return out


def _omp_drivers(c):
    o = c.compile_all([dict(src="c22.cpp", name="c22i.o", flags=["-c", "-fsanitize=thread"], asan=False, shim=True),
                       dict(src="c22.cpp", name="c22p.o", flags=["-c", "-DVOMP_PLAIN"], shim=True),
                       dict(src="vomp.cpp", name="vompi.o", flags=["-c"], asan=False, opt="-O2"),
                       dict(src="vomp.cpp", name="vompp.o", flags=["-c", "-DVOMP_PLAIN"], asan=False, opt="-O2"),
                       dict(src="vomp_real.cpp", name="vompr.o", flags=["-c"], asan=False)])
    return (o[2], _link(c, "c22r", [o[1], o[4]], ["-fsanitize=address", "-fopenmp"]), _link(c, "c22i", [o[0], o[2]], ["-Wl,--wrap=" + w for w in _WRAP]),
            _link(c, "c22p", [o[1], o[3]], ["-fsanitize=address"]))


# program, options, file that it writes (None: what it prints)
_OMP_APPS = (("hubbard_real_1d_rk4", [("N", 4), ("J", 1), ("U", 2), ("dt", .05), ("t_end", .2), ("measurement_interval", 2)], "out.txt"),
             ("hubbard_real_1d_kinetic_rk4", [("N", 12), ("J", 1), ("dt", .05), ("t_end", .5), ("measurement_interval", 3)], "out.txt"),
             ("hubbard_real_1d_rk4_jump", [("N", 4), ("J", 1), ("U", 2), ("dt", .05), ("t_end", .2), ("measurement_interval", 2)], "out.txt"),
             ("hubbard_real_2d_rk4_jump", [("Nx", 3), ("Ny", 3), ("J", 1), ("U", 2), ("dt", .05), ("t_end", .1), ("measurement_interval", 2)], "out.txt"),
             ("hubbard_momentum_1d_rk4", [("N", 5), ("J", 1), ("U", 2), ("dt", .05)], None),
             ("hubbard_real_1d_kinetic_theory", [], "theory.txt"))


def c22(c):
    """Regions with every layout of their cells model-checked under all interleavings; the real parallel code runs on a
    runtime of our own under schedules of the specification, its accesses and results are decided by TLC."""
    import apps
    b = c.pool.submit(_omp_drivers, c)
    must = ("Take", "Read", "Write")
    full = inv("Once", "Independent", "Detects", "NeverConflicts", "Right")
    t = c.thorough

    def consts(T, N, chunking, layout, pr="FALSE"):
        return dict(T=str(T), N=str(N), Chunking='"%s"' % chunking, Layout='"%s"' % layout, Dump=pr)

    for chunking in ("static", "dynamic"):
        for layout in ("own", "perthread"):
            c.model("Parallel", full, must=must, consts=consts(3, 8 if t else 6, chunking, layout))
            c.model("Parallel", full, consts=consts(2, 5, chunking, layout))
            c.model("Parallel", full, consts=consts(4, 6 if t else 4, chunking, layout))
        c.model("Parallel", full, must=must + ("Lock", "Unlock"), consts=consts(3, 6 if t else 4, chunking, "locked"))
        for layout in ("shared", "modulo"):
            c.model("Parallel", inv("Once", "Independent", "Detects"), consts=consts(3, 4, chunking, layout))
            c.model("Parallel", inv("Right"), expect_violation=True, consts=consts(3, 4, chunking, layout))
    res = c.behaviours("Parallel", inv("Emit"), consts=consts(3, 3, "static", "perthread", "TRUE"))
    res += c.behaviours("Parallel", inv("Emit"), consts=consts(2, 4 if t else 3, "dynamic", "perthread", "TRUE"))
    if len(res) < 100:
        raise kit.Broken("too few schedules: %d" % len(res))
    p = os.path.join(c.dir, "run", "schedules.txt")
    with open(p, "w") as f:
        for s in res:
            f.write(re.sub(r"[^0-9]+", " ", s).strip() + "\n")
    c.notes["schedules_of_the_specification"] = len(res)
    c.assumptions += ["regions are entered by one thread at a time (observables are not called from inside of other parallel regions)",
                      "functions handed to observables do not write shared data",
                      "own OpenMP runtime: teams of up to 64 threads, switches at instrumented memory accesses"]
    runtime, real, instrumented, plain = b.result()
    R = apps.Runner(c)
    teams = [(2, 2, 0, 0), (3, 3, 1, 0), (7, 7, 0, 0), (16, 16, 1, 0), (8, 3, 2, 4)] + \
            [(n, n, 2, c.seed + k) for k, n in enumerate((2, 3, 5, 8) * (3 if t else 1))]

    def program(name, opts, out):
        binary = apps.hooked(c, name, runtime, _WRAP, shorten=not opts and out)
        if binary:
            c.conform_events(name, lambda: apps.schedules(R, binary, opts, out, teams), "ParallelTrace")
        else:
            c.notes[name] = "parameters not found, only run by C19"

    futs = [c.pool.submit(program, *a) for a in _OMP_APPS]
    if instrumented:
        c.conform(instrumented, "ParallelTrace", args=["--schedules", p])
    if plain:
        c.conform(plain, "ParallelTrace")
    c.conform(real, "ParallelTrace", env={"OMP_WAIT_POLICY": "passive"})
    for f in futs:
        f.result()


CHECKS["C22"] = c22
