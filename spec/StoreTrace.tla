------------------------------ MODULE StoreTrace ------------------------------
(* Checks recorded histories of saving, loading and changing against Store.     *)
(*   scn                                                                        *)
(*   op     o: the operation, out: exception or ""                              *)
(*          files: names of the files there are afterwards                      *)
(*   look   i (0: live, k: loaded copy, -1: a file loaded elsewhere), f, val    *)
EXTENDS Store, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
E == Trace[l]
Report(i, S) == \A c \in S : PrintT(<< "BAD", i, c >>)
If(b, c) == IF b THEN {} ELSE {c}
SetOf(x) == {x[i] : i \in DOMAIN x}
AsOp(o) == [o EXCEPT !.parts = SetOf(o.parts)]
TInit == l = 1 /\ s = S0
Scn == E.ev = "scn" /\ s' = S0
Op == /\ E.ev = "op"
      /\ Report(l, If(E.out = Outcome(s, AsOp(E.o)), IF Outcome(s, AsOp(E.o)) = "" THEN "operation fails" ELSE "missing file")
                   \cup If(SetOf(E.files) = DOMAIN Step(s, AsOp(E.o)).files, "files"))
      /\ s' = Step(s, AsOp(E.o))
Same(val, want) == /\ DOMAIN val = DOMAIN want
                   /\ \A p \in DOMAIN want : val[p] = want[p]
Look == /\ E.ev = "look"
        /\ LET want == IF E.i = 0 THEN Snapshot(s.live, Parts) ELSE IF E.i > 0 THEN s.loaded[E.i] ELSE s.files[E.f]
           IN  Report(l, If(Same(E.val, want), IF E.i = 0 THEN "live object changed" ELSE IF E.i > 0 THEN "loaded value"
                                               ELSE "value in another process"))
        /\ UNCHANGED s
TNext == l <= Len(Trace) /\ (Scn \/ Op \/ Look) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<< l, s >>
Consumed == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1 >>)
=============================================================================
