------------------------------- MODULE Optimal -------------------------------
(* Optimal control problems with known solutions, all in exact fractions.      *)
(* States, controls, costates: polynomials in s = t - t0 over the duration T.  *)
(*  "energy"  x' = v, v' = u - g; integral of w u^2; x, v given at both ends   *)
(*  "soft"    x' = u; w u^2, terminal cost Q (x - a1)^2; x(0) = a0             *)
(*  "start"   x' = u; w u^2, initial cost Q (x - a0)^2; x(T) = a1              *)
(*  "free"    x' = u; c^2 + u^2, free duration; x(0) = a0, x(T) = a1           *)
(*  "two"     x' = u + r; u^2 + 2 r^2; x(0) = a0, x(T) = a1                    *)
(*  "drift"   x' = u + t; w u^2; x(0) = a0, x(T) = a1                          *)
EXTENDS Solver

RECURSIVE PAdd(_, _), PInt1(_, _)
PAdd(a, b) == IF a = << >> THEN b ELSE IF b = << >> THEN a
              ELSE << Plus(Head(a), Head(b)) >> \o PAdd(Tail(a), Tail(b))
PScale(c, a) == [i \in DOMAIN a |-> Times(c, a[i])]
PSub(a, b) == PAdd(a, PScale(F(-1), b))
RECURSIVE PMul(_, _)
PMul(a, b) == IF a = << >> THEN << >> ELSE PAdd(PScale(Head(a), b), << F(0) >> \o PMul(Tail(a), b))
PInt1(a, n) == IF a = << >> THEN << >> ELSE << Over(Head(a), F(n)) >> \o PInt1(Tail(a), n + 1)
PInt(a, c) == << c >> \o PInt1(a, 1)              \* antiderivative with value c at 0
Integral(a, T) == At(PInt(a, F(0)), T)
PZero(a) == \A i \in DOMAIN a : a[i] = F(0)
D(a) == Derivative(a)

(* inst: [type, k: constants, T, t0] *)
(* The solution: x, u, lam: sequences of polynomials; T: duration; lt: costate of time (polynomial); J: cost. *)
Optimum(inst) ==
    LET k(i) == F(inst.k[i])
        T == F(inst.T)
        T2 == Times(T, T)
        T3 == Times(T, T2)
    IN CASE inst.type = "energy" ->
              (* k = a0, b0, a1, b1, g, w;  u = al + be s *)
              LET r == Minus(Minus(k(3), k(1)), Times(k(2), T))          \* x needed beyond the ballistic part (no g)
                  dv == Minus(k(4), k(2))
                  (* al' T + be T2/2 = dv ; al' T2/2 + be T3/6 = r, with al' = al - g *)
                  be == Over(Times(F(12), Minus(Times(Half, Times(dv, T)), r)), T3)
                  alg == Minus(Over(dv, T), Times(Half, Times(be, T)))
                  al == Plus(alg, k(5))
                  u == << al, be >>
                  v == PInt(<< alg, be >>, k(2))
                  x == PInt(v, k(1))
                  lv == PScale(Times(F(-2), k(6)), u)
                  lx == << Times(Times(F(2), k(6)), be) >>
                  lt == PScale(F(-1), PAdd(PScale(k(6), PMul(u, u)), PAdd(PMul(lx, v), PMul(lv, << alg, be >>))))
              IN [x |-> << x, v >>, u |-> << u >>, lam |-> << lx, lv >>, lt |-> lt, T |-> T,
                  J |-> Integral(PScale(k(6), PMul(u, u)), T)]
         [] inst.type = "soft" ->
              (* k = a0, a1, Q, w *)
              LET u == Over(Times(k(3), Minus(k(2), k(1))), Plus(k(4), Times(k(3), T)))
                  x == << k(1), u >>
                  miss == Minus(At(x, T), k(2))
              IN [x |-> << x >>, u |-> << << u >> >>, lam |-> << << Times(Times(F(-2), k(4)), u) >> >>,
                  lt |-> << Times(k(4), Times(u, u)) >>, T |-> T,
                  J |-> Plus(Times(T, Times(k(4), Times(u, u))), Times(k(3), Times(miss, miss)))]
         [] inst.type = "start" ->
              LET u == Over(Times(k(3), Minus(k(2), k(1))), Plus(k(4), Times(k(3), T)))
                  x0 == Minus(k(2), Times(u, T))
                  miss == Minus(x0, k(1))
              IN [x |-> << << x0, u >> >>, u |-> << << u >> >>, lam |-> << << Times(Times(F(-2), k(4)), u) >> >>,
                  lt |-> << Times(k(4), Times(u, u)) >>, T |-> T,
                  J |-> Plus(Times(T, Times(k(4), Times(u, u))), Times(k(3), Times(miss, miss)))]
         [] inst.type = "free" ->
              (* k = a0, a1, c with c > 0 *)
              LET up == k(2)[1] > k(1)[1]
                  u == IF up THEN k(3) ELSE Times(F(-1), k(3))
                  dur == Over(Minus(k(2), k(1)), u)
              IN [x |-> << << k(1), u >> >>, u |-> << << u >> >>, lam |-> << << Times(F(-2), u) >> >>, lt |-> << F(0) >>,
                  T |-> dur, J |-> Times(dur, Times(F(2), Times(k(3), k(3))))]
         [] inst.type = "two" ->
              LET u == Over(Times(F(2), Minus(k(2), k(1))), Times(F(3), T))
                  r == Times(Half, u)
              IN [x |-> << << k(1), Plus(u, r) >> >>, u |-> << << u >>, << r >> >>, lam |-> << << Times(F(-2), u) >> >>,
                  lt |-> << Minus(F(0), Plus(Plus(Times(u, u), Times(F(2), Times(r, r))), Times(Times(F(-2), u), Plus(u, r)))) >>,
                  T |-> T, J |-> Times(T, Plus(Times(u, u), Times(F(2), Times(r, r))))]
         [] inst.type = "drift" ->
              (* k = a0, a1, w; t = t0 + s *)
              LET t0 == F(inst.t0)
                  u == Minus(Over(Minus(k(2), k(1)), T), Plus(t0, Times(Half, T)))
                  lam == Times(Times(F(-2), k(3)), u)
                  rate == << Plus(u, t0), F(1) >>
              IN [x |-> << PInt(rate, k(1)) >>, u |-> << << u >> >>, lam |-> << << lam >> >>,
                  lt |-> PScale(F(-1), PAdd(<< Times(k(3), Times(u, u)) >>, PScale(lam, rate))), T |-> T,
                  J |-> Times(T, Times(k(3), Times(u, u)))]
         [] OTHER -> [x |-> << >>]

(* Running cost and dynamics as polynomials along given x, u. *)
Rates(inst, x, u) ==
    CASE inst.type = "energy" -> << x[2], PSub(u[1], << F(inst.k[5]) >>) >>
      [] inst.type = "two"    -> << PAdd(u[1], u[2]) >>
      [] inst.type = "drift"  -> << PAdd(u[1], << F(inst.t0), F(1) >>) >>
      [] OTHER -> << u[1] >>
Weight(inst) == CASE inst.type = "energy" -> F(inst.k[6]) [] inst.type \in {"soft", "start"} -> F(inst.k[4])
                  [] inst.type = "drift" -> F(inst.k[3]) [] OTHER -> F(1)
Running(inst, u) ==
    LET a == PScale(Weight(inst), PMul(u[1], u[1])) IN
    CASE inst.type = "two"  -> PAdd(a, PScale(F(2), PMul(u[2], u[2])))
      [] inst.type = "free" -> PAdd(a, << Times(F(inst.k[3]), F(inst.k[3])) >>)
      [] OTHER -> a
Ends(inst, x, T) ==
    LET k(i) == F(inst.k[i])
        sq(p) == Times(p, p)
    IN CASE inst.type = "soft"  -> Times(k(3), sq(Minus(At(x[1], T), k(2))))
         [] inst.type = "start" -> Times(k(3), sq(Minus(At(x[1], F(0)), k(1))))
         [] OTHER -> F(0)
Cost(inst, x, u, T) == Plus(Ends(inst, x, T), Integral(Running(inst, u), T))
Meets(inst, x, T) ==
    LET k(i) == F(inst.k[i])
        Z == F(0)
    IN CASE inst.type = "energy" -> At(x[1], Z) = k(1) /\ At(x[2], Z) = k(2) /\ At(x[1], T) = k(3) /\ At(x[2], T) = k(4)
         [] inst.type = "soft"   -> At(x[1], Z) = k(1)
         [] inst.type = "start"  -> At(x[1], T) = k(2)
         [] OTHER -> At(x[1], Z) = k(1) /\ At(x[1], T) = k(2)

(* First-order conditions of the optimum, exactly. *)
Stationary(inst) ==
    LET o == Optimum(inst)
        k(i) == F(inst.k[i])
        T == o.T
        rates == Rates(inst, o.x, o.u)
        Z == F(0)
        H == PAdd(Running(inst, o.u), PAdd(PMul(o.lam[1], rates[1]), IF Len(rates) = 2 THEN PMul(o.lam[2], rates[2]) ELSE << Z >>))
        lamu == IF inst.type = "energy" THEN o.lam[2] ELSE o.lam[1]
    IN  /\ \A i \in DOMAIN o.x : PZero(PSub(D(o.x[i]), rates[i]))
        /\ Meets(inst, o.x, T)
        /\ PZero(PAdd(PScale(Times(F(2), Weight(inst)), o.u[1]), lamu))
        /\ inst.type = "two" => PZero(PAdd(PScale(F(4), o.u[2]), lamu))
        /\ inst.type = "energy" => PZero(PAdd(D(o.lam[2]), o.lam[1])) /\ PZero(D(o.lam[1]))
        /\ inst.type # "energy" => PZero(D(o.lam[1]))
        /\ inst.type = "soft" => At(o.lam[1], T) = Times(Times(F(2), k(3)), Minus(At(o.x[1], T), k(2)))
        /\ inst.type = "start" => At(o.lam[1], Z) = Times(Times(F(-2), k(3)), Minus(At(o.x[1], Z), k(1)))
        /\ PZero(PAdd(H, o.lt))                                            \* H + lam_t = 0 all along
        /\ inst.type # "drift" => PZero(D(o.lt))
        /\ inst.type = "drift" => PZero(PAdd(D(o.lt), o.lam[1]))
        /\ inst.type = "free" => PZero(H)
        /\ Cost(inst, o.x, o.u, T) = o.J
Less(a, b) == a[1] * b[2] < b[1] * a[2]
(* No feasible variation of the state does better. *)
Variations(inst, T) ==
    LET s == << F(0), F(1) >>
        ts == << T, F(-1) >>
    IN CASE inst.type = "energy" -> {PMul(PMul(s, s), PMul(ts, ts))}
         [] inst.type = "soft"   -> {s, PMul(s, ts)}
         [] inst.type = "start"  -> {ts, PMul(s, ts)}
         [] inst.type = "two"    -> {PMul(s, ts)}
         [] OTHER -> {PMul(s, ts)}
Best(inst) ==
    LET o == Optimum(inst) IN
    \A h \in Variations(inst, o.T), d \in {<< 1, 2 >>, << -1, 3 >>} :
        LET e == PScale(d, h)
            x == IF inst.type = "energy" THEN << PAdd(o.x[1], e), PAdd(o.x[2], D(e)) >> ELSE << PAdd(o.x[1], e) >>
            du == IF inst.type = "energy" THEN D(D(e)) ELSE D(e)
            u == IF inst.type = "two" THEN << PAdd(o.u[1], PScale(<< 1, 2 >>, du)), PAdd(o.u[2], PScale(<< 1, 2 >>, du)) >>
                 ELSE << PAdd(o.u[1], du) >>
        IN  Meets(inst, x, o.T) /\ Less(o.J, Cost(inst, x, u, o.T))
=============================================================================
