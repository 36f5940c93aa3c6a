------------------------------ MODULE LogTrace ------------------------------
EXTENDS Log, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
E == Trace[l]
Report(i, S) == \A c \in S : PrintT(<< "BAD", i, c >>)
Scn == E.ev = "scn" /\ s' = S0
(* After every operation: the numbers of the messages on the screen, in every file, and seen by the root logger. *)
Same(f, g) == {f[i].n : i \in DOMAIN f} = DOMAIN g /\ \A i \in DOMAIN f : f[i].m = g[f[i].n]
Op == /\ E.ev = "op" /\ s' = Step(s, E.o, E.i)
      /\ Report(l, (IF E.out = "" THEN {} ELSE {"logging failed"})
                   \cup (IF E.screen = s'.screen THEN {} ELSE {"screen"})
                   \cup (IF Same(E.files, s'.files) THEN {} ELSE {"file"})
                   \cup (IF E.root = 0 THEN {} ELSE {"elsewhere"}))
TInit == l = 1 /\ s = S0
TNext == l <= Len(Trace) /\ (Scn \/ Op) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<< l, s >>
Consumed == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1 >>)
=============================================================================
