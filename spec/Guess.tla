-------------------------------- MODULE Guess --------------------------------
(* The guess generator: an object whose settings are replaced by setup() and   *)
(* which generates, for a problem, the trajectory handed to the solver.        *)
(*                                                                             *)
(* Settings g: [mode: "auto" / "ones" / "static"; dir: "forward" / "reverse";  *)
(*   T: duration; start: states; lam, u: guesses [how: "default" (a tenth      *)
(*   everywhere) / "scalar" / "list"; v: sequence]; for "static" the user's    *)
(*   own trajectory [t0, T, x, u, lam, lt], polynomials in the time elapsed].  *)
(* Problem p: [type, control: "differential" / "algebraic", w].                *)
EXTENDS Optimal
Tenth == << 1, 10 >>
Neg(a) == Times(F(-1), a)
NStates(p) == IF p.type = "energy" THEN 2 ELSE 1
NControls(p) == IF p.type = "two" THEN 2 ELSE 1
Spread(q, n) == CASE q.how = "default" -> [i \in 1 .. n |-> Tenth]
                  [] q.how = "scalar" -> [i \in 1 .. n |-> F(q.v[1])]
                  [] OTHER -> [i \in 1 .. n |-> F(q.v[i])]
Const(a) == << a >>
(* Propagated along the dynamics from the start at time zero. *)
Propagated(p, g) ==
    LET n == NStates(p)
        lam0 == Spread(g.lam, n)
        u0 == Spread(g.u, NControls(p))
        w2 == F(2 * p.w)
        alg == p.control = "algebraic"
        x0(i) == F(g.start[i])
    IN CASE p.type = "energy" ->
              LET lv == << lam0[2], Neg(lam0[1]) >>
                  u == IF alg THEN PScale(Over(F(-1), w2), lv) ELSE << u0[1], Over(lam0[1], w2) >>
                  v == PInt(u, x0(2))
              IN [x |-> << PInt(v, x0(1)), v >>, u |-> << u >>, lam |-> << Const(lam0[1]), lv >>, lt |-> Const(F(0))]
         [] p.type = "two" ->
              LET u == IF alg THEN Over(lam0[1], F(-2)) ELSE u0[1]
                  r == IF alg THEN Over(lam0[1], F(-4)) ELSE u0[2]
              IN [x |-> << << x0(1), Plus(u, r) >> >>, u |-> << Const(u), Const(r) >>,
                  lam |-> << Const(lam0[1]) >>, lt |-> Const(F(0))]
         [] p.type = "drift" ->
              LET u == IF alg THEN Over(lam0[1], Neg(w2)) ELSE u0[1]
              IN [x |-> << << x0(1), u, Half >> >>, u |-> << Const(u) >>, lam |-> << Const(lam0[1]) >>,
                  lt |-> << F(0), Neg(lam0[1]) >>]
(* Everything constant; with the algebraic method the control is the law's. *)
Frozen(p, g) ==
    LET lam0 == Spread(g.lam, NStates(p))
        u0 == Spread(g.u, NControls(p))
        w2 == F(2 * p.w)
        alg == p.control = "algebraic"
    IN [x |-> [i \in 1 .. NStates(p) |-> Const(F(g.start[i]))],
        u |-> CASE ~alg -> [i \in 1 .. NControls(p) |-> Const(u0[i])]
                [] p.type = "energy" -> << Const(Over(lam0[2], Neg(w2))) >>
                [] p.type = "two" -> << Const(Over(lam0[1], F(-2))), Const(Over(lam0[1], F(-4))) >>
                [] OTHER -> << Const(Over(lam0[1], Neg(w2))) >>,
        lam |-> [i \in 1 .. NStates(p) |-> Const(lam0[i])], lt |-> Const(F(0))]
Given(p, g) ==
    LET w2 == F(2 * p.w) IN
    [x |-> g.sol.x, lam |-> g.sol.lam, lt |-> g.sol.lt,
     u |-> CASE p.control # "algebraic" -> g.sol.u
             [] p.type = "energy" -> << PScale(Over(F(-1), w2), g.sol.lam[2]) >>
             [] p.type = "two" -> << PScale(Over(F(-1), F(2)), g.sol.lam[1]), PScale(Over(F(-1), F(4)), g.sol.lam[1]) >>
             [] OTHER -> << PScale(Over(F(-1), w2), g.sol.lam[1]) >>]
Generated(p, g) == CASE g.mode = "auto" -> Propagated(p, g) [] g.mode = "ones" -> Frozen(p, g) [] OTHER -> Given(p, g)
(* Signed duration, and time at the start. *)
Duration(g) == CASE g.mode = "static" -> F(g.sol.T) [] g.dir = "forward" -> F(g.T) [] OTHER -> F(-g.T)
Begin(g) == IF g.mode = "static" THEN F(g.sol.t0) ELSE F(0)
Clock(g) == << Begin(g), F(1) >>
(* What the settings must be. *)
Refused(m) == m.mode \notin {"auto", "ones", "static"}
              \/ (m.mode # "static" /\ (m.dir \notin {"forward", "reverse"} \/ m.T = 0))

(* The equations of the problems, to check what is propagated. *)
Obeys(p, r) ==
    LET w2 == F(2 * p.w) IN
    CASE p.type = "energy" -> /\ PZero(PSub(D(r.x[1]), r.x[2])) /\ PZero(PSub(D(r.x[2]), r.u[1]))
                              /\ PZero(D(r.lam[1])) /\ PZero(PAdd(D(r.lam[2]), r.lam[1]))
                              /\ PZero(D(PAdd(PScale(w2, r.u[1]), r.lam[2])))
      [] p.type = "two" -> /\ PZero(PSub(D(r.x[1]), PAdd(r.u[1], r.u[2]))) /\ PZero(D(r.lam[1]))
                           /\ PZero(D(r.u[1])) /\ PZero(D(r.u[2]))
      [] OTHER -> /\ PZero(PSub(D(r.x[1]), PAdd(r.u[1], << F(0), F(1) >>))) /\ PZero(D(r.u[1]))
                  /\ PZero(D(r.lam[1])) /\ PZero(PAdd(D(r.lt), r.lam[1]))
Stationary0(p, r) == CASE p.type = "energy" -> PZero(PAdd(PScale(F(2 * p.w), r.u[1]), r.lam[2]))
                      [] p.type = "two" -> PZero(PAdd(PScale(F(2), r.u[1]), r.lam[1])) /\ PZero(PAdd(PScale(F(4), r.u[2]), r.lam[1]))
                      [] OTHER -> PZero(PAdd(PScale(F(2 * p.w), r.u[1]), r.lam[1]))
=============================================================================
