---------------------------- MODULE SymbolicTrace ----------------------------
(* Decides recorded symbolic commutators (API calls and program output).     *)
EXTENDS Fock, TraceKit

SC == INSTANCE SymbolicCommutator WITH Names <- {}, MaxLen <- 0, a <- 0, b <- 0, k <- 0, q <- 0, out <- 0

Values(poly, sym) == IF Cardinality(SC!NamesOf(poly, sym)) <= 4 THEN SC!Values3 ELSE SC!Values2

TraceInit == l = 1
Begin == IsEvent("begin")
Call ==
    /\ IsEvent("symcomm")
    /\ Len(Ev.after) >= Len(Ev.before)
    /\ SubSeq(Ev.after, 1, Len(Ev.before)) = Ev.before
    /\ LET new == SubSeq(Ev.after, Len(Ev.before) + 1, Len(Ev.after))
       IN  Holds(SC!IsCommutator(new, Ev.x, Ev.y, Ev.sym, Values(new \o Ev.x \o Ev.y, Ev.sym)))
\* What the tables of the programs are about: the terms of the Hubbard Hamiltonian and the elements of the bases, up to
\* the names of the symbols and the order of the terms.
Cr(n, s) == [c |-> TRUE, i |-> <<n, s>>]
An(n, s) == [c |-> FALSE, i |-> <<n, s>>]
Hamiltonian(space, what) ==
    CASE what = "kin" /\ space = "real" -> UNION {{<<Cr("a", s), An("b", s)>>, <<Cr("b", s), An("a", s)>>} : s \in {"0", "1"}}
      [] what = "kin" /\ space = "momentum" -> {<<Cr("a", s), An("a", s)>> : s \in {"0", "1"}}
      [] what = "int" /\ space = "real" -> {<<Cr("a", "1"), An("a", "1"), Cr("a", "0"), An("a", "0")>>}
      [] OTHER -> {<<Cr("a", "1"), An("b", "1"), Cr("c", "0"), An("d", "0")>>}
Element(n) == IF n = 1 THEN {<<Cr("a", "1")>>} ELSE {<<Cr("a", "1"), Cr("b", "0"), An("c", "0")>>}
Letters == <<"a", "b", "c", "d">>
Injections(S, k) == {f \in [S -> {Letters[j] : j \in 1..k}] : \A x, y \in S : f[x] = f[y] => x = y}
Renamed(ops, f) == [j \in 1..Len(ops) |-> [ops[j] EXCEPT !.i = <<f[@[1]], @[2]>>]]
IsUpToNames(terms, expected) ==
    LET names == SC!NamesOf(terms, <<TRUE, FALSE>>)
    IN  /\ \A k \in 1..Len(terms) : terms[k].p = <<1, 0>> /\ terms[k].ks = <<>>
        /\ Len(terms) = Cardinality(expected) /\ Cardinality(names) <= 4
        /\ \E f \in Injections(names, Cardinality(names)) : {Renamed(terms[k].ops, f) : k \in 1..Len(terms)} = expected
Table ==
    /\ IsEvent("table")
    /\ Holds(/\ IsUpToNames(Ev.x, Hamiltonian(Ev.space, Ev.what))
             /\ IsUpToNames(Ev.y, Element(Ev.elements))
             /\ SC!NamesOf(Ev.x, <<TRUE, FALSE>>) \cap SC!NamesOf(Ev.y, <<TRUE, FALSE>>) = {})
TraceNext == Begin \/ Call \/ Table
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
