----------------------------- MODULE SplineTrace -----------------------------
(* Checks the values a problem with a table in its dynamics was observed to    *)
(* have (in units of 1e-4) against Spline.                                     *)
EXTENDS Spline, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, t, n
tvars == << l, t, n >>
E == Trace[l]
Report(i, S) == \A c \in S : PrintT(<< "BAD", i, c >>)
Abs(a) == IF a < 0 THEN -a ELSE a
Close(got, v) == LET w == (10000 * (v[1] % v[2])) \div v[2] + 10000 * (v[1] \div v[2]) IN Abs(got - w) <= 3
What(o) == CASE o = 0 -> "value of the table" [] o = 1 -> "slope of the table" [] o = 2 -> "second derivative of the table"
             [] OTHER -> "third derivative of the table"
TInit == l = 1 /\ t = << >> /\ n = 0
Scn == E.ev = "scn" /\ t' = E.t /\ n' = 0
Val == /\ E.ev = "val"
       /\ Report(l, IF E.got < 200000000 /\ Close(E.got, Value(t, E.i, E.q, E.order)) THEN {} ELSE {What(E.order)})
       /\ n' = n + 1 /\ t' = t
End == /\ E.ev = "end"
       /\ Report(l, (IF E.out = "ok" THEN {} ELSE {"table unusable"})
                    \cup (IF E.out = "ok" /\ n # 3 * (4 * Segs(t) + 3) + 3 * Segs(t) + 2 THEN {"values missing"} ELSE {}))
       /\ UNCHANGED << t, n >>
TNext == l <= Len(Trace) /\ (Scn \/ Val \/ End) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
Consumed == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1 >>)
=============================================================================
