------------------------------ MODULE FrontTrace ------------------------------
EXTENDS Front, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, kept, results
E == Trace[l]
Report(i, S) == \A c \in S : PrintT(<< "BAD", i, c >>)
Scn == E.ev = "scn" /\ kept' = << >> /\ results' = << >>
(* E.out: exception or ""; E.solves: calls of the solver; E.files: files written; E.n: states of the problem solved;    *)
(* E.cls: number of the first request (of any history) with the same solution; E.first: that of the first request    *)
(* with the same key; E.workers: processes asked for; E.closed: they were released.                                   *)
Req == /\ E.ev = "solve"
       /\ LET r == E.r  why == Reasons(r, kept)  k == Key(r, kept) IN
          /\ Report(l,
               IF why # {}
               THEN (IF E.out \in why THEN {} ELSE {"impossible request"})
                    \cup (IF E.out # "" /\ (E.solves # 0 \/ E.files # 0) THEN {"solved before refusing"} ELSE {})
               ELSE IF E.out # "" THEN {"request refused"}
               ELSE (IF E.n = Unknowns(k) THEN {} ELSE {"method"})
                    \cup (IF E.conv THEN {} ELSE {"not solved"})
                    \cup (IF E.files = 1 THEN {} ELSE {"not saved"})
                    \cup (IF r.bvp # 0 /\ E.cls # results[r.bvp] THEN {"another solution"} ELSE {})
                    \cup (IF (r.cpus = 1 /\ E.workers # 0) \/ (r.cpus > 1 /\ (E.workers # r.cpus \/ ~ E.closed)) THEN {"processes"} ELSE {}))
          /\ kept' = (IF why = {} THEN Append(kept, k) ELSE kept)
          /\ results' = (IF why = {} THEN Append(results, E.cls) ELSE results)
(* Solutions of all histories with the key of a boundary value problem: all the same. *)
All == /\ E.ev = "all" /\ Report(l, IF Cardinality({E.cls[i] : i \in DOMAIN E.cls}) <= 1 THEN {} ELSE {"depends on the spelling"})
       /\ UNCHANGED << kept, results >>
(* Objects made by name. *)
Mak == /\ E.ev = "make"
       /\ Report(l, IF E.known THEN (IF E.out = "" /\ E.got = E.want THEN {} ELSE {"wrong object made"})
                    ELSE IF E.out = "ValueError" THEN {} ELSE {"unknown name accepted"})
       /\ UNCHANGED << kept, results >>
TInit == l = 1 /\ kept = << >> /\ results = << >>
TNext == l <= Len(Trace) /\ (Scn \/ Req \/ All \/ Mak) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<< l, kept, results >>
Consumed == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1 >>)
=============================================================================
