----------------------------- MODULE SolverTrace -----------------------------
(* Checks recorded solver runs.  Events:                                        *)
(*  scn   one solver object: solver, algorithm, arcs, insts (list)              *)
(*  set   inst: the functions of that instance were given                       *)
(*  solve g: guess number; tolr: what the residual may be when converged (nano),*)
(*        told: allowed distance from the exact solution (nano), hard: the      *)
(*        configuration must solve every feasible instance;                     *)
(*        out: "" or exception; conv, success (flags), unequal: flags differ;   *)
(*        y0, q0, yf, qf, p, m: values in 1e-6;                                 *)
(*        dev: largest deviation from the exact solution over the mesh,         *)
(*        res: residual of the boundary conditions, gap: the largest jump       *)
(*        against an independent integration between mesh points (nano),        *)
(*        mesh: strictly monotone from t0 to t0 + S, shapes agree,              *)
(*        same: equal to a fresh object's result (bit for bit),                 *)
(*        kept: guess and constants unchanged                                   *)
(*  pool  same: the run with a pool gave the serial result, order: the order   *)
(*        in which the pool worked on the arcs                                  *)
EXTENDS Solver, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, scn, obj
tvars == << l, scn, obj >>
E == Trace[l]
Report(i, S) == \A c \in S : PrintT(<< "BAD", i, c >>)
If(b, c) == IF b THEN {} ELSE {c}

Micro(f) == (f[1] * 1000000) \div f[2]
Near(v, f) == Abs(v - Micro(f)) <= E.told \div 1000 + 2
EndValues(inst) ==
    IF inst.type = "recip" THEN Near(E.y0[1], Over(F(1), RecipC(inst)))
                                /\ Near(E.yf[1], Over(F(inst.k[1]), F(inst.k[2])))
    ELSE LET s == Solution(inst)
             S == F(inst.S)
         IN  /\ Len(E.y0) = Len(s.y) /\ Len(E.q0) = Len(s.q) /\ Len(E.p) = Len(s.p) /\ Len(E.m) = Len(s.m)
             /\ \A i \in DOMAIN s.y : Near(E.y0[i], At(s.y[i], F(0))) /\ Near(E.yf[i], At(s.y[i], S))
             /\ \A i \in DOMAIN s.q : Near(E.q0[i], At(s.q[i], F(0))) /\ Near(E.qf[i], At(s.q[i], S))
             /\ \A i \in DOMAIN s.p : Near(E.p[i], s.p[i])
             /\ \A i \in DOMAIN s.m : Near(E.m[i], s.m[i])

TInit == l = 1 /\ scn = << >> /\ obj = [fn |-> 0]
Scn == E.ev = "scn" /\ scn' = E /\ obj' = [fn |-> 0]
Set == E.ev = "set" /\ obj' = Apply(obj, [op |-> "set", inst |-> E.inst]) /\ UNCHANGED scn
Solve ==
    /\ E.ev = "solve"
    /\ LET inst == scn.insts[obj.fn]
           good == E.out = "" /\ E.conv
       IN Report(l, If(E.out # "" \/ ~Feasible(inst) \/ ~E.hard \/ E.conv, "C15.missed")
                    \cup If(E.out = "" \/ ~E.hard \/ ~Feasible(inst), "C15.error")
                    \cup If(Feasible(inst) \/ ~good, "C13.impossible")
                    \cup If(~good \/ E.res <= E.tolr, "C13.residual")
                    \cup If(~good \/ E.gap <= E.told, "C13.continuity")
                    \cup If(E.out # "" \/ ~E.unequal, "C13.flags")
                    \cup If(~good \/ ~Feasible(inst) \/ EndValues(inst), "C15.solution")
                    \cup If(~good \/ ~Feasible(inst) \/ E.dev <= E.told, "C15.trajectory")
                    \cup If(~good \/ E.mesh, "C13.mesh")
                    \cup If(E.out # "" \/ E.same, "C18.history")
                    \cup If(E.kept, "C18.guess"))
    /\ UNCHANGED << scn, obj >>
Pool == /\ E.ev = "pool"
        /\ Report(l, If(E.same, "C14.result"))
        /\ UNCHANGED << scn, obj >>
TNext == l <= Len(Trace) /\ (Scn \/ Set \/ Solve \/ Pool) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
Consumed == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1 >>)
=============================================================================
