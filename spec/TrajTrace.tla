------------------------------ MODULE TrajTrace ------------------------------
(* Checks recorded histories of trajectory objects.  Events:                    *)
(*  scn   a new, empty object                                                  *)
(*  set   part ("mesh", "y", "q", "u", "interp"), val: polynomials, nodes or   *)
(*        kind                                                                 *)
(*  eval  ts: quarters, scalar, out, shape and val (1/64 1e-3) of y, q, u      *)
(*  row   i, out, t, y, q, u: values (1e-3)                                    *)
(*  rows  lo, hi: slice, the same, flattened                                   *)
(*  len   n                                                                    *)
EXTENDS Traj, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, o
E == Trace[l]
Report(i, S) == \A c \in S : PrintT(<< "BAD", i, c >>)
If(b, c) == IF b THEN {} ELSE {c}
Near(vs, ws) == Len(vs) = Len(ws) /\ \A i \in DOMAIN ws : Abs(vs[i] - 1000 * ws[i]) <= 20
Scn == E.ev = "scn" /\ o' = Blank
Set == E.ev = "set" /\ o' = [o EXCEPT ![E.part] = E.val]
Eval ==
    /\ E.ev = "eval" /\ UNCHANGED o
    /\ Report(l, IF Fails(o, E.ts) THEN If(E.out # "", "C17.outside the mesh") ELSE
                 IF E.out # "" THEN {"C17.error"} ELSE
                 UNION {If(E.shape[p] = Shape(o, p, E.ts, E.scalar), "C17.shape of " \o p)
                        \cup If(Near(E.val[p], Values(o, p, E.ts)), "C17.value of " \o p) : p \in {"y", "q", "u"}})
RowE ==
    /\ E.ev = "row" /\ UNCHANGED o
    /\ Report(l, IF E.out # "" THEN {"C17.error"} ELSE
          If(Near(E.t, << o.mesh[IF E.i < 0 THEN Len(o.mesh) + E.i + 1 ELSE E.i + 1] >>), "C17.row time")
          \cup UNION {If(Near(E[p], Row(o, p, E.i)), "C17.row of " \o p) : p \in {"y", "q", "u"}})
Rows ==
    /\ E.ev = "rows" /\ UNCHANGED o
    /\ Report(l, IF E.out # "" THEN {"C17.error"} ELSE
          If(Near(E.t, SubSeq(o.mesh, E.lo + 1, E.hi)), "C17.row time")
          \cup UNION {If(LET d == Len(o[p]) IN
                         Near(E[p], [k \in 1 .. (E.hi - E.lo) * d |-> Row(o, p, E.lo + ((k - 1) \div d))[1 + ((k - 1) % d)]]),
                      "C17.row of " \o p) : p \in {"y", "q", "u"}})
LenE == E.ev = "len" /\ UNCHANGED o /\ Report(l, If(E.n = Len(o.mesh), "C17.length"))
TInit == l = 1 /\ o = Blank
TNext == l <= Len(Trace) /\ (Scn \/ Set \/ Eval \/ RowE \/ Rows \/ LenE) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<< l, o >>
Consumed == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1 >>)
=============================================================================
