---------------------------- MODULE ScalingTrace -----------------------------
(* Checks recorded runs of the continuation driver with automatic scaling.     *)
(*  scn   cfg, auto, mag: magnitudes of the guess (exponents of two)           *)
(*  case  dxf, dx, dv: what the step and the solver did;                       *)
(*        hand, back: exponents (1e-6) of guess / handed over, of solution     *)
(*        returned / solver's, for t, y (by name), u, q, p, m, k (by name);    *)
(*        99000000 where the elements of one column disagree                   *)
(*  cov   rate, bc: deviation of the dynamics and boundary conditions from     *)
(*        meaning the same in the scaled variables (1e-9)                      *)
EXTENDS Scaling, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, scn, mag
tvars == << l, scn, mag >>
E == Trace[l]
Report(i, S) == \A c \in S : PrintT(<< "BAD", i, c >>)
If(b, c) == IF b THEN {} ELSE {c}
Abs(a) == IF a < 0 THEN -a ELSE a
Micro(r, f) == Abs(r - f * 1000000) <= 2

Expected(g) == IF scn.auto THEN Factors(scn.cfg, g)
               ELSE LET f == Factors(scn.cfg, g)
                        zero(s) == [i \in DOMAIN s |-> 0]
                    IN [t |-> 0, y |-> zero(f.y), u |-> zero(f.u), q |-> zero(f.q), p |-> zero(f.p), m |-> zero(f.m), k |-> zero(f.k)]
ByName(got, items, f) == /\ Len(got) = Len(items)
                         /\ \A i \in DOMAIN items : \E j \in DOMAIN got : got[j][1] = items[i][1] /\ Micro(got[j][2], f[i])
Count(s, v) == Cardinality({i \in DOMAIN s : Micro(s[i], v)})
CountI(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
Bag(got, f) == Len(got) = Len(f) /\ \A i \in DOMAIN f : Count(got, f[i]) = CountI(f, f[i])
List(got, f) == Len(got) = Len(f) /\ \A i \in DOMAIN f : Micro(got[i], f[i])
Match(r, f) ==
    LET I == Internal(scn.cfg) IN
    If(Micro(r.t, f.t), "time") \cup If(ByName(r.y, I.states, f.y), "states") \cup If(ByName(r.u, I.controls, f.u), "controls")
    \cup If(List(r.p, f.p), "parameters")
    \cup If(List(r.q, f.q), "quadratures") \cup If(Bag(r.m, f.m), "multipliers")
    \cup If(ByName(r.k, I.consts, f.k), "constants")
Tag(p, S) == {p \o x : x \in S}

TInit == l = 1 /\ scn = << >> /\ mag = << >>
Scn == E.ev = "scn" /\ scn' = E /\ mag' = E.mag
Case ==
    /\ E.ev = "case"
    /\ LET g == [mag EXCEPT !.xf = @ + E.dxf]
           f == Expected(g)
           move == [x |-> E.dx, v |-> E.dv]
       IN  /\ Report(l, Tag("C06.hand ", Match(E.hand, f)) \cup Tag("C06.back ", Match(E.back, f)))
           /\ mag' = IF scn.auto THEN TakeBack(scn.cfg, g, Solved(Hand(scn.cfg, g), move)) ELSE Solved(g, move)
    /\ UNCHANGED scn
Cov == /\ E.ev = "cov"
       /\ Report(l, If(E.rate <= 1000, "C06.dynamics") \cup If(E.bc <= 1000, "C06.boundary"))
       /\ UNCHANGED << scn, mag >>
Fail == E.ev = "fail" /\ Report(l, {"C06.error"}) /\ UNCHANGED << scn, mag >>
TNext == l <= Len(Trace) /\ (Scn \/ Case \/ Cov \/ Fail) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
Consumed == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1 >>)
=============================================================================
