----------------------------- MODULE DeclareTrace -----------------------------
(* Checks recorded histories of declarations against Declare.                   *)
(*   scn                                                                        *)
(*   declare  o, d, out: "" or the exception                                    *)
(*   copy                                                                       *)
(*   solve    o, out, names: what the solver was told the unknown, controls and *)
(*            constants are, values of the constants                            *)
EXTENDS Declare, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, objs
E == Trace[l]
Report(i, S) == \A c \in S : PrintT(<< "BAD", i, c >>)

TInit == l = 1 /\ objs = << >>
Scn == E.ev = "scn" /\ objs' = << << >> >>
Sibling(o) == UNION {Used(objs[i]) : i \in DOMAIN objs \ {o}}
Dec == /\ E.ev = "declare"
       /\ LET want == Refused(objs[E.o], E.d) IN
          Report(l, IF E.out = want THEN {}
                    ELSE IF want = "RuntimeWarning" THEN {"name used twice"}
                    ELSE IF want # "" THEN {"bad declaration not refused"}
                    ELSE IF E.out = "RuntimeWarning" /\ Claims(E.d) \cap Sibling(E.o) # {} THEN {"copy shares names"}
                    ELSE {"declaration refused"})
       /\ objs' = [objs EXCEPT ![E.o] = IF E.out = "" THEN Append(@, E.d) ELSE @]
Copy == E.ev = "copy" /\ objs' = Append(objs, objs[1])
Pairs(s) == {<< s[i].n, s[i].v >> : i \in DOMAIN s}
Solve == /\ E.ev = "solve"
         /\ LET p == ProblemOf(objs[E.o])
                want == Unsolvable(objs[E.o]) IN
            Report(l, IF E.out # want THEN {IF want = "" THEN "complete problem refused" ELSE "impossible problem"}
                      ELSE IF want # "" THEN {}
                      ELSE (IF Pairs(E.consts) = Pairs(p.consts) /\ Len(E.consts) = Len(p.consts) THEN {} ELSE {"constants"})
                           \cup (IF RangeOf(E.units) = UNION {Claims(objs[E.o][i]) : i \in {j \in DOMAIN objs[E.o] : objs[E.o][j].k = "unit"}}
                                 THEN {} ELSE {"units"}))
         /\ UNCHANGED objs
TNext == l <= Len(Trace) /\ (Scn \/ Dec \/ Copy \/ Solve) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<< l, objs >>
Consumed == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1 >>)
=============================================================================
