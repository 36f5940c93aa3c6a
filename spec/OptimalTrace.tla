---------------------------- MODULE OptimalTrace -----------------------------
(* Checks recorded end-to-end runs.  Events (after scn):                        *)
(*  solve inst, cfg, hard: must succeed, out: "" or exception, conv, mono: time increases;          *)
(*        y0, yf, J: end states and cost (1e-6);                                *)
(*        time, x, u, lam, lt, cost: largest deviation from the optimum over    *)
(*        the returned mesh (1e-9)                                              *)
EXTENDS Optimal, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
E == Trace[l]
Report(i, S) == \A c \in S : PrintT(<< "BAD", i, c >>)
If(b, c) == IF b THEN {} ELSE {c}
Micro(f) == IF Abs(f[1]) > 2000 THEN 1000 * ((1000 * f[1]) \div f[2]) ELSE (1000000 * f[1]) \div f[2]
Near(v, f, tol) == Abs(v - Micro(f)) <= tol
(* spbvp accepts residuals of 1e-3 in the boundary conditions; shooting was asked for 1e-6. *)
Wide == IF E.cfg.solver = "spbvp" THEN 10 ELSE 1
Scn == E.ev = "scn"
Solve ==
    /\ E.ev = "solve"
    /\ LET o == Optimum(E.inst) IN
       Report(l, If(E.out = "" \/ ~E.hard, "C25.error") \cup If(E.out # "" \/ E.conv \/ ~E.hard, "C25.missed")
                 \cup IF E.out # "" \/ ~E.conv THEN {}
                      ELSE If(E.mono /\ E.time <= Wide * 1000000, "C25.time")
                           \cup If(E.x <= Wide * 1000000 /\ Len(E.y0) = Len(o.x)
                                   /\ \A i \in DOMAIN o.x : Near(E.y0[i], At(o.x[i], F(0)), Wide * 2000) /\ Near(E.yf[i], At(o.x[i], o.T), Wide * 2000), "C25.states")
                           \cup If(E.u <= Wide * 1000000, "C25.controls")
                           \cup If(E.lam <= Wide * 3000000, "C25.costates")
                           \cup If(E.lt <= Wide * 8000000, "C25.time costate")
                           \cup If(E.cost <= Wide * 2000000 /\ Near(E.J, o.J, 40000), "C25.cost"))
TInit == l = 1
TNext == l <= Len(Trace) /\ (Scn \/ Solve) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1 >>)
=============================================================================
