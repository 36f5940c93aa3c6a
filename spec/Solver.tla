------------------------------- MODULE Solver -------------------------------
(* Boundary value solvers.  An instance is a boundary value problem with a     *)
(* known solution (a polynomial or a reciprocal), all in exact fractions:      *)
(*   "chain"   y1' = y2, y2' = k1;          y1(0) = k2, y1(S) = k3             *)
(*   "slope"   y1' = y2, y2' = k1;          y1(0) = k2, y2(S) = k3             *)
(*   "param"   y1' = p y2, y2' = p k1;      y1(0) = k2, y2(0) = k3, y2(S) = k4 *)
(*   "mult"    chain and a multiplier m;    ... and y2(S) = m                  *)
(*   "quad"    y1' = y2, y2' = k1, q' = y1; y1(0) = k2, q(0) = k4, q(S) = k3   *)
(*   "all"     y1' = p y2, y2' = p k1, q' = p y1;  y1(0) = k2, y2(0) = k3,     *)
(*             y2(S) = k4, q(0) = k5, q(S) = m                                 *)
(*   "many"    y1' = p1 y2, y2' = p1 k1, y3' = p2, q1' = p1 y1, q2' = p2 y2;    *)
(*             y1, y2, y3, q1, q2 (0) = k2, k3, k6, k5, k8, y2(S) = k4,         *)
(*             y3(S) = k7, q1(S) = m1, q2(S) = m2                              *)
(*   "recip"   y1' = -y1^2;                 y1(S) = k1 / k2                    *)
(*   "clash"   y1' = y2, y2' = k1;          y1(0) = k2, y1(0) = k3 (never)     *)
(*   "noreal"  y1' = k2;                    y1(S)^2 + k1 = 0 (never)           *)
(*   "almost"  y1' = k2;                    y1(S)^2 + k1 / 100 = 0 (never)     *)
(*   "steep"   y1' = k2;   1/2 + pi/2 + atan(1e7 (y1(S) - k1)) = 0 (never)     *)
(* A solver object holds the functions last given to it and nothing else.     *)
EXTENDS Integers, Sequences, TLC

(* Fractions << numerator, denominator > 0 >>. *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Norm(n, d) == LET g == Gcd(Abs(n), Abs(d))
                  s == IF d < 0 THEN -1 ELSE 1
              IN  IF n = 0 THEN << 0, 1 >> ELSE << s * (n \div g), Abs(d) \div g >>
F(n) == << n, 1 >>
Plus(a, b) == Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Minus(a, b) == Norm(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
Times(a, b) == Norm(a[1] * b[1], a[2] * b[2])
Over(a, b) == IF b[1] > 0 THEN Norm(a[1] * b[2], a[2] * b[1]) ELSE Norm(-a[1] * b[2], a[2] * (-b[1]))
Half == << 1, 2 >>
Sixth == << 1, 6 >>

(* Polynomials: sequences of coefficients. *)
RECURSIVE At(_, _)
At(c, s) == IF c = << >> THEN F(0) ELSE Plus(Head(c), Times(s, At(Tail(c), s)))
Derivative(c) == IF Len(c) <= 1 THEN << F(0) >> ELSE [i \in 1 .. Len(c) - 1 |-> Times(F(i), c[i + 1])]

-----------------------------------------------------------------------------
(* The exact solution: y, q: polynomials in s = t - t0; p, m: fractions.       *)
Solution(inst) ==
    LET k(i) == F(inst.k[i])
        S == F(inst.S)
        chain(v0) == << << k(2), v0, Times(Half, k(1)) >>, << v0, k(1) >> >>
        drift == LET p == Over(Minus(k(4), k(3)), Times(k(1), S)) IN
                 [p |-> p, y |-> << << k(2), Times(p, k(3)), Times(Half, Times(Times(p, p), k(1))) >>,
                                    << k(3), Times(p, k(1)) >> >>]
    IN CASE inst.type \in {"chain", "mult"} ->
              LET v0 == Minus(Over(Minus(k(3), k(2)), S), Times(Half, Times(k(1), S))) IN
              [y |-> chain(v0), q |-> << >>, p |-> << >>, m |-> IF inst.type = "mult" THEN << Plus(v0, Times(k(1), S)) >> ELSE << >>]
         [] inst.type = "slope" -> [y |-> chain(Minus(k(3), Times(k(1), S))), q |-> << >>, p |-> << >>, m |-> << >>]
         [] inst.type = "param" -> [y |-> drift.y, q |-> << >>, p |-> << drift.p >>, m |-> << >>]
         [] inst.type = "quad" ->
              LET rest == Minus(Minus(k(3), k(4)), Plus(Times(k(2), S), Times(Sixth, Times(k(1), Times(S, Times(S, S))))))
                  v0 == Over(Times(F(2), rest), Times(S, S))
              IN  [y |-> chain(v0), q |-> << << k(4), k(2), Times(Half, v0), Times(Sixth, k(1)) >> >>, p |-> << >>, m |-> << >>]
         [] inst.type = "all" ->
              LET d == drift
                  q == << k(5), Times(d.p, d.y[1][1]), Times(Half, Times(d.p, d.y[1][2])), Times(<< 1, 3 >>, Times(d.p, d.y[1][3])) >>
              IN  [y |-> d.y, q |-> << q >>, p |-> << d.p >>, m |-> << At(q, S) >>]
         [] inst.type = "many" ->
              LET d == drift
                  p2 == Over(Minus(k(7), k(6)), S)
                  q1 == << k(5), Times(d.p, d.y[1][1]), Times(Half, Times(d.p, d.y[1][2])), Times(<< 1, 3 >>, Times(d.p, d.y[1][3])) >>
                  q2 == << k(8), Times(p2, d.y[2][1]), Times(Half, Times(p2, d.y[2][2])) >>
              IN  [y |-> << d.y[1], d.y[2], << k(6), p2 >> >>, q |-> << q1, q2 >>, p |-> << d.p, p2 >>, m |-> << At(q1, S), At(q2, S) >>]
         [] OTHER -> [y |-> << >>, q |-> << >>, p |-> << >>, m |-> << >>]
Feasible(inst) == inst.type \notin {"clash", "noreal", "almost", "steep"}
(* "recip": y1 = 1 / (c + s) *)
RecipC(inst) == Minus(Over(F(inst.k[2]), F(inst.k[1])), F(inst.S))

(* What the solution must satisfy (checked on the specification itself). *)
Correct(inst) ==
    LET s == Solution(inst)
        k(i) == F(inst.k[i])
        S == F(inst.S)
        Z == F(0)
        rate(c) == Derivative(c)
        p == IF s.p = << >> THEN F(1) ELSE s.p[1]
        same(c, d) == \A x \in 0 .. 4 : At(c, F(x)) = At(d, F(x))
        scale(c) == [i \in DOMAIN c |-> Times(p, c[i])]
    IN  (inst.type \notin {"clash", "noreal", "almost", "steep", "recip"}) =>
        /\ same(rate(s.y[1]), scale(s.y[2])) /\ same(rate(s.y[2]), scale(<< k(1) >>))
        /\ (s.q # << >> => same(rate(s.q[1]), scale(s.y[1])))
        /\ At(s.y[1], Z) = k(2)
        /\ inst.type \in {"chain", "mult"} => At(s.y[1], S) = k(3)
        /\ inst.type = "mult" => At(s.y[2], S) = s.m[1]
        /\ inst.type = "slope" => At(s.y[2], S) = k(3)
        /\ inst.type \in {"param", "all", "many"} => At(s.y[2], Z) = k(3) /\ At(s.y[2], S) = k(4)
        /\ inst.type = "quad" => At(s.q[1], Z) = k(4) /\ At(s.q[1], S) = k(3)
        /\ inst.type \in {"all", "many"} => At(s.q[1], Z) = k(5) /\ At(s.q[1], S) = s.m[1]
        /\ inst.type = "many" =>
              /\ same(rate(s.y[3]), << s.p[2] >>) /\ same(rate(s.q[2]), [i \in DOMAIN s.y[2] |-> Times(s.p[2], s.y[2][i])])
              /\ At(s.y[3], Z) = k(6) /\ At(s.y[3], S) = k(7) /\ At(s.q[2], Z) = k(8) /\ At(s.q[2], S) = s.m[2]

-----------------------------------------------------------------------------
(* The solver object.  fn: index of the instance whose functions it holds.     *)
(* Solving depends on that, on the guess and on the options only.              *)
Apply(obj, o) == IF o.op = "set" THEN [obj EXCEPT !.fn = o.inst] ELSE obj
=============================================================================
