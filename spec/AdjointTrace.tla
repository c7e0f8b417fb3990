---------------------------- MODULE AdjointTrace ----------------------------
(* Conjugation, products, predicates and charges of recorded objects         *)
EXTENDS Fock, TraceKit
A == INSTANCE Adjoint WITH Modes <- {}, MaxLen <- 0, Prefactors <- {}, x <- 0, y <- 0, x0 <- 0, steps <- 0, prod <- 0

TraceInit == l = 1
Begin == IsEvent("begin")

\* construction: the indices given are the indices read back, in order
MakeOp == /\ IsEvent("make")
          /\ Ev.res = [c |-> Ev.c, i |-> Ev.i]
          /\ Ev.gets = Ev.i
          /\ Ev.tuple = Ev.i
          /\ Ev.indices = Ev.i
OpConj == /\ IsEvent("opconj")
          /\ Ev.conj = A!RawAdj(Ev.o)
          /\ Ev.inplace = A!RawAdj(Ev.o)
          /\ Ev.twice = Ev.o
          /\ Ev.o2 = Ev.o
OpRel == /\ IsEvent("oprel")
         /\ Ev.eq = (Ev.x = Ev.y)
         /\ Ev.ne = (Ev.x # Ev.y)
         /\ Ev.same = A!SameIdx(Ev.x, Ev.y)
         /\ Ev.isconj = A!IsConj(Ev.x, Ev.y)
MonConj == /\ IsEvent("monconj")
           /\ Ev.conj = A!RawAdjSeq(Ev.x)
           /\ Ev.inplace = A!RawAdjSeq(Ev.x)
           /\ Ev.twice = Ev.x
           /\ Ev.x2 = Ev.x
MonRel == /\ IsEvent("monrel")
          /\ Ev.eq = (Ev.x = Ev.y)
          /\ Ev.ne = (Ev.x # Ev.y)
          /\ Ev.isconj = A!IsConjSeq(Ev.x, Ev.y)
          /\ Ev.prod = Ev.x \o Ev.y
          /\ Ev.assign = Ev.x \o Ev.y
          /\ Ev.self = Ev.x \o Ev.x
          /\ Ev.x2 = Ev.x /\ Ev.y2 = Ev.y
          \* conjugate of the product
          /\ Ev.prodconj = A!RawAdjSeq(Ev.y) \o A!RawAdjSeq(Ev.x)
RawTAdj(t) == [p |-> CConj(t.p), ops |-> A!RawAdjSeq(t.ops)]
TermConj == /\ IsEvent("termconj")
            /\ Ev.conj = RawTAdj(Ev.x)
            /\ Ev.inplace = RawTAdj(Ev.x)
            /\ Ev.twice = Ev.x
            /\ Ev.x2 = Ev.x
TermRel == /\ IsEvent("termrel")
           /\ Ev.sameops = (Ev.x.ops = Ev.y.ops)
           /\ Ev.prod = TMul(Ev.x, Ev.y)
           /\ Ev.assign = TMul(Ev.x, Ev.y)
           /\ Ev.self = TMul(Ev.x, Ev.x)
           /\ Ev.x2 = Ev.x /\ Ev.y2 = Ev.y
           /\ Ev.prodconj = TMul(RawTAdj(Ev.y), RawTAdj(Ev.x))
\* charges; index tuples are numbers here: <<x, y, spin>> or <<x, spin>>
Spin(i)   == IF i[Len(i)] = 1 THEN 1 ELSE -1
Charges == /\ IsEvent("charges")
           /\ Ev.creations = A!Charge(Ev.ops, LAMBDA i : 1)
           /\ Ev.spin = A!Charge(Ev.ops, Spin)
           /\ Ev.mx = A!Charge(Ev.ops, LAMBDA i : Ev.tab[i[1] + 1][1])
           /\ Ev.my = A!Charge(Ev.ops, LAMBDA i : Ev.tab[i[1] + 1][2])
           \* of the conjugate
           /\ Ev.ccreations = -Ev.creations /\ Ev.cspin = -Ev.spin /\ Ev.cmx = -Ev.mx /\ Ev.cmy = -Ev.my
\* histories: an object that is conjugated and multiplied repeatedly
\* the types of the indices
HasType == IsEvent("has") /\ Ev.res = (\E x \in 1..Len(Ev.types) : Ev.types[x] = Ev.query)
IndexTypes == /\ IsEvent("symbolic") /\ Ev.isop /\ ~Ev.other
              /\ Len(Ev.each) = Len(Ev.types)
              /\ \A x \in 1..Len(Ev.types) : Ev.each[x] = (Ev.types[x] = "string")
              \* Hubbard operators: one or two site indices and a spin
              /\ LET n == Len(Ev.types)
                     hubbard == Ev.types[n] = "bool" /\ (\A x \in 1..(n - 1) : Ev.types[x] # "string")
                 IN  Ev.chain = (n = 2 /\ hubbard) /\ Ev.square = (n = 3 /\ hubbard) /\ Ev.hubbard = (Ev.chain \/ Ev.square)
              /\ Ev.any = (\E x \in 1..Len(Ev.types) : Ev.types[x] = "string")
TraceNext == Begin \/ MakeOp \/ OpConj \/ OpRel \/ MonConj \/ MonRel \/ TermConj \/ TermRel \/ Charges \/ HasType \/ IndexTypes
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
