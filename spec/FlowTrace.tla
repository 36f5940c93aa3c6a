------------------------------ MODULE FlowTrace ------------------------------
(* Checks recorded propagations.  Events (after scn):                          *)
(*  leg   p, c, st: start (1/6000ths), T0, T: start and duration (tenths), h:  *)
(*        largest step (tenths), var, quick: settings, tight: explicit method, *)
(*        out: exception; first, last: ends of the mesh equal the request      *)
(*        exactly; mono, n; mesh: nodes in 1e-6 (fixed step only), gap: largest*)
(*        step (1e-9); y0, q0: start row, yf, qf: end row (1/6000 1e-3);       *)
(*        dy, dq1, dq2: largest deviation from the solution along the mesh     *)
(*        (1/6000 1e-3); same: arguments not modified; degenerate: the solver  *)
(*        chose a step of rounding size, on which Simpson's rule is inaccurate *)
(*  quad  A, B: integrands A[i] + B[i] t; q: start values or empty, a, b:      *)
(*        interval, lo, hi: extent of the trajectory (hi < lo: reverse);       *)
(*        out, val: result in 1/200 1e-3; same                                 *)
EXTENDS Flow, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
E == Trace[l]
Report(i, S) == \A c \in S : PrintT(<< "BAD", i, c >>)
If(b, c) == IF b THEN {} ELSE {c}
Near(v, x, tol) == Abs(v - 1000 * x) <= tol
Scn == E.ev = "scn"
Leg ==
    /\ E.ev = "leg"
    /\ LET w == Flow(E.st, E.p, E.c, E.T)
           tol == IF E.tight THEN 60 + Abs(E.T) ELSE 300000
           nq == IF E.q0 = << >> THEN 0 ELSE 2
           sl == (1000 * Slack(E.p, E.c, E.h)) + IF E.degenerate THEN 1000000 ELSE 0
       IN Report(l, IF E.out # "" THEN {"C16.error"} ELSE
             If(E.first /\ E.last, "C16.ends of the interval")
             \cup If(E.mono /\ E.n >= 2, "C16.mesh")
             \cup If(E.gap <= 100000000 * E.h + 1000, "C16.step size")
             \cup If(E.var \/ (/\ Len(E.mesh) = Len(Fixed(E.T0, E.T0 + E.T, E.h))
                               /\ \A i \in DOMAIN E.mesh : Abs(E.mesh[i] - 100000 * Fixed(E.T0, E.T0 + E.T, E.h)[i]) <= 2), "C16.fixed mesh")
             \cup If(\A i \in 1 .. 2 : Near(E.y0[i], E.st[i], 1) /\ Near(E.yf[i], w[i], tol), "C16.states at the ends")
             \cup If(E.dy <= tol, "C16.states")
             \cup If(nq = 0 \/ (/\ Len(E.q0) = 2
                                /\ \A i \in 1 .. 2 : Near(E.q0[i], E.st[i + 2], 1)
                                /\ Near(E.qf[1], w[3], tol + IF E.degenerate THEN sl ELSE 0)
                                /\ Near(E.qf[2], w[4], tol + IF E.n > 2 /\ ~E.degenerate THEN 0 ELSE sl)), "C16.quadratures at the ends")
             \cup If(nq = 0 \/ E.quick \/ (E.dq1 <= tol + (IF E.degenerate THEN sl ELSE 0) /\ E.dq2 <= tol + sl), "C16.quadratures")
             \cup If(E.same, "C16.arguments modified"))
QuadE ==
    /\ E.ev = "quad"
    /\ LET s == Sgn(E.hi - E.lo)
           inside == s * E.a >= s * E.lo /\ s * E.b <= s * E.hi
       IN Report(l, IF ~inside THEN If(E.out # "", "C16.outside the trajectory") ELSE
                    IF E.out # "" THEN {"C16.error"} ELSE
             If(/\ Len(E.val) = Len(E.A)
                /\ \A i \in DOMAIN E.A : Near(E.val[i], Quad(E.A[i], E.B[i], E.a, E.b)
                                              + (IF E.q = << >> THEN 0 ELSE 200 * E.q[i]), 20), "C16.quadrature over an interval")
             \cup If(E.same, "C16.arguments modified"))
TInit == l = 1
TNext == l <= Len(Trace) /\ (Scn \/ Leg \/ QuadE) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1 >>)
=============================================================================
