---------------------------- MODULE FermiSeaTrace ----------------------------
(* Histories of one excited Fermi sea (the state is followed step by step). *)
EXTENDS Integers, Sequences, FiniteSets, TraceKit
S == INSTANCE FermiSea WITH Momenta <- {}, Spins <- {}, MaxOps <- 0, Dump <- FALSE, sea <- 0, occ <- 0,
                            dead <- 0, created <- 0, holes <- 0, diff <- 0, hist <- 0
VARIABLES disp, ef, x      \* dispersion table, Fermi energy, [dead, diff]
tvars == <<l, disp, ef, x>>

InSea(m) == disp[m[1] + 1] < ef
SeqSet(s) == {s[j] : j \in 1..Len(s)}

\* equal states look equal: both lists are in lexicographic order
RECURSIVE Less(_, _)
Less(a, b) == a # <<>> /\ (Head(a) < Head(b) \/ (Head(a) = Head(b) /\ Less(Tail(a), Tail(b))))
Ascending(s) == \A j \in 1..Len(s) - 1 : Less(s[j], s[j + 1])

TraceInit == l = 1 /\ disp = <<>> /\ ef = 0 /\ x = S!Sea0
Begin == IsEvent("begin") /\ disp' = <<>> /\ ef' = 0 /\ x' = S!Sea0

\* what the object shows after a step
Shows(y) ==
    /\ Ev.dead = y.dead
    /\ Ev.isfs = (~y.dead /\ y.diff = {})
    /\ ~y.dead => /\ SeqSet(Ev.cr) = S!CreatedOf(y, InSea) /\ Len(Ev.cr) = Cardinality(SeqSet(Ev.cr))
                  /\ SeqSet(Ev.an) = S!HolesOf(y, InSea)   /\ Len(Ev.an) = Cardinality(SeqSet(Ev.an))

Start == /\ IsEvent("start") /\ disp' = Ev.disp /\ ef' = Ev.ef /\ x' = S!Sea0
         /\ ~Ev.dead /\ Ev.isfs /\ Ev.cr = <<>> /\ Ev.an = <<>>
\* create_particle / annihilate_particle tell whether they were possible
Single == /\ IsEvent("single")
          /\ LET y == S!StepOp([c |-> Ev.c, m |-> Ev.m], x, InSea)
             IN  Shows(y) /\ x' = y /\ Ev.ret = ~y.dead
          /\ UNCHANGED <<disp, ef>>
\* apply_operator / apply_monomial (a product acts rightmost first)
Apply == /\ IsEvent("apply")
         /\ LET y == S!StepOps(Ev.ops, x, InSea)
            IN  /\ Shows(y) /\ x' = y /\ (~x.dead => Ev.ret = y.dead)
                /\ ~y.dead => Ascending(Ev.cr) /\ Ascending(Ev.an)
         /\ UNCHANGED <<disp, ef>>
Occ == IsEvent("occ") /\ Ev.res = InSea(Ev.m) /\ UNCHANGED <<disp, ef, x>>
TraceNext == Begin \/ Start \/ Single \/ Apply \/ Occ
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
