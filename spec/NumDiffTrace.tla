---------------------------- MODULE NumDiffTrace ----------------------------
(* Checks weights and derivatives the code was observed to give (in units of   *)
(* 1e-5) against NumDiff.                                                      *)
EXTENDS NumDiff, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Report(i, S) == \A c \in S : PrintT(<< "BAD", i, c >>)
Unit == 100000
Near(got, v, tol) == Abs(got - (Unit * (v[1] % v[2])) \div v[2] - Unit * (v[1] \div v[2])) <= tol
Frac(v) == IF v[2] < 0 THEN << -v[1], -v[2] >> ELSE v
Scn == E.ev = "scn"
(* Weights on the grid divided by E.sc. *)
Wts == /\ E.ev = "weights"
       /\ Report(l, IF ~ Enough(E.g, E.d) THEN (IF E.out = "RuntimeWarning" THEN {} ELSE {"too few points"})
                    ELSE IF E.out # "" THEN {"no weights"}
                    ELSE IF Len(E.got) = Len(E.g)
                            /\ \A j \in DOMAIN E.g : Near(E.got[j], Frac(<< Weight(E.g, j, E.d)[1] * Pow(E.sc, E.d), Weight(E.g, j, E.d)[2] >>), 3)
                    THEN {} ELSE {"weights"})
(* A claim about a value needs a small step or an exact formula. *)
Step5 == CASE Total(E.o) <= 1 -> 4 [] Total(E.o) = 2 -> 40 [] OTHER -> 400
Dif == /\ E.ev = "diff"
       /\ LET want == Deriv(E.p, E.o, E.x)
              tight == Tight(E.p, E.o, E.m, E.a)
              zero == \A k \in DOMAIN E.o : E.o[k] = 0
          IN Report(l, IF E.out # "" THEN {"no derivative"}
                       ELSE IF zero THEN (IF E.got = Unit * want THEN {} ELSE {"order zero"})
                       ELSE IF tight THEN (IF Near(E.got, << want, 1 >>, 100) THEN {} ELSE {"derivative"})
                       ELSE IF Total(E.o) <= 3 /\ ~ Near(E.got, << want, 1 >>, 100 + Step5 * Next1(E.p, E.o, E.x)) THEN {"derivative"}
                       ELSE {})
Knk == /\ E.ev = "kink"
       /\ Report(l, IF E.out # "" THEN {"no derivative"} ELSE IF Near(E.got, Kink(E.o, E.m), 100) THEN {} ELSE {"side"})
Ref == E.ev = "refuse" /\ Report(l, IF E.out = E.want THEN {} ELSE {"refusal"})
TInit == l = 1
TNext == l <= Len(Trace) /\ (Scn \/ Wts \/ Dif \/ Knk \/ Ref) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1 >>)
=============================================================================
