---------------------------- MODULE CompileTrace ----------------------------
(* Checks calls of compiled formulas.                                          *)
(*   scn   f, sig, g, how (which compiler), machine (machine code allowed)     *)
(*   call  z, out: "" or the exception, got: the result, in whole numbers      *)
EXTENDS Compile, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, scn, n
E == Trace[l]
Report(i, S) == \A b \in S : PrintT(<< "BAD", i, b >>)
TInit == l = 1 /\ scn = << >> /\ n = 0
Scn == E.ev = "scn" /\ scn' = E /\ n' = 0
Call == /\ E.ev = "call"
        /\ Report(l, IF E.out # "" THEN {"compiled formula fails"}
                     ELSE LET want == Result(scn.f, scn.sig, scn.g, E.z) IN
                          IF Shape(E.got) # Shape(want) THEN {"shape"} ELSE IF E.got # want THEN {"value"} ELSE {})
        /\ n' = n + 1 /\ UNCHANGED scn
End == /\ E.ev = "end" /\ Report(l, (IF n = scn.calls THEN {} ELSE {"calls missing"}) \cup (IF E.out = "" THEN {} ELSE {"not compiled"}))
       /\ UNCHANGED << scn, n >>
TNext == l <= Len(Trace) /\ (Scn \/ Call \/ End) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<< l, scn, n >>
Consumed == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1 >>)
=============================================================================
