--------------------------- MODULE PrefactorTrace ---------------------------
(* Histories of operations on several prefactor objects.                    *)
EXTENDS Integers, Sequences, FiniteSets, Bags, TraceKit

P == INSTANCE Prefactor WITH Names <- {}, MaxDeltas <- 0, Numbers <- {}, val <- 0, ks <- 0, bag <- 0, canonical <- 0

VARIABLE objs      \* object id -> [val, bag]  (abstract state)
tvars == <<l, objs>>

TraceInit == l = 1 /\ objs = <<>>
Begin == IsEvent("begin") /\ objs' = <<>>

Abs(x) == [val |-> x.val, bag |-> P!BagOf(x.ks)]
Put(id, x) == [i \in DOMAIN objs \cup {id} |-> IF i = id THEN x ELSE objs[i]]
Known(id) == id \in DOMAIN objs

\* construction from a number and a list of deltas
New == /\ IsEvent("new")
       /\ Abs(Ev.res) = [val |-> Ev.val, bag |-> P!BagOf(Ev.ks)]
       /\ objs' = Put(Ev.id, Abs(Ev.res))
MulNum == /\ IsEvent("mulnum") /\ Known(Ev.id)
          /\ Abs(Ev.res) = [val |-> P!CMul(objs[Ev.id].val, Ev.val), bag |-> objs[Ev.id].bag]
          /\ objs' = Put(Ev.id, Abs(Ev.res))
MulHalf == /\ IsEvent("half") /\ Known(Ev.id)
           /\ Abs([Ev.res EXCEPT !.val = P!CMul(@, <<2, 0>>)]) = objs[Ev.id]
           /\ objs' = Put(Ev.id, Abs(Ev.res))
MulKs == /\ IsEvent("mulks") /\ Known(Ev.id)     \* one delta or a list of deltas
         /\ Abs(Ev.res) = [val |-> objs[Ev.id].val, bag |-> objs[Ev.id].bag (+) P!BagOf(Ev.ks)]
         /\ objs' = Put(Ev.id, Abs(Ev.res))
\* x *= y, also with x and y the same object
MulPref == /\ IsEvent("mulpref") /\ Known(Ev.id) /\ Known(Ev.rhs)
           /\ Abs(Ev.res) = [val |-> P!CMul(objs[Ev.id].val, objs[Ev.rhs].val),
                             bag |-> objs[Ev.id].bag (+) objs[Ev.rhs].bag]
           /\ Ev.rhs # Ev.id => Abs(Ev.rres) = objs[Ev.rhs]
           /\ objs' = Put(Ev.id, Abs(Ev.res))
\* z = x * y leaves x and y alone
Times == /\ IsEvent("times") /\ Known(Ev.x) /\ Known(Ev.y)
         /\ Abs(Ev.res) = [val |-> P!CMul(objs[Ev.x].val, objs[Ev.y].val),
                           bag |-> objs[Ev.x].bag (+) objs[Ev.y].bag]
         /\ Abs(Ev.xres) = objs[Ev.x] /\ Abs(Ev.yres) = objs[Ev.y]
         /\ objs' = Put(Ev.id, Abs(Ev.res))
Order == /\ IsEvent("order") /\ Known(Ev.id)
         /\ Ev.res.val = objs[Ev.id].val
         /\ Holds(P!Canonical(Ev.res.ks, objs[Ev.id].bag))
         /\ UNCHANGED objs
\* comparison and orientation of single deltas
Compare == /\ IsEvent("eq")
           /\ Ev.eq = P!SamePair(Ev.x, Ev.y)
           /\ Ev.ne = ~P!SamePair(Ev.x, Ev.y)
           /\ UNCHANGED objs
OrderOne == /\ IsEvent("orderone") /\ Ev.res = P!Orient(Ev.x) /\ UNCHANGED objs
MakeNumeric == /\ IsEvent("mknum") /\ Ev.res = Ev.expect /\ UNCHANGED objs

TraceNext == Begin \/ New \/ MulNum \/ MulHalf \/ MulKs \/ MulPref \/ Times \/ Order \/ Compare \/ OrderOne \/ MakeNumeric
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
