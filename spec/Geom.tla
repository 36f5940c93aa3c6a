-------------------------------- MODULE Geom --------------------------------
(* Differential forms with polynomial coefficients over a basis of n variables *)
(* and Hamilton's equations.  Everything is evaluated at whole points.         *)
EXTENDS NumDiff
UnitAt(n, k) == [j \in 1 .. n |-> IF j = k THEN 1 ELSE 0]
Part(p, k, x) == Deriv(p, UnitAt(Len(x), k), x)
Part2(p, i, j, x) == Deriv(p, [k \in DOMAIN x |-> (IF k = i THEN 1 ELSE 0) + (IF k = j THEN 1 ELSE 0)], x)
(* The differential of a function and of a form f[1] dx1 + f[2] dx2 + ... *)
D0(p, x) == [i \in DOMAIN x |-> Part(p, i, x)]
D1(f, x) == [i \in DOMAIN x |-> [j \in DOMAIN x |-> Part(f[j], i, x) - Part(f[i], j, x)]]
Zero(n) == [i \in 1 .. n |-> [j \in 1 .. n |-> 0]]

(* Forms on an even number of variables. *)
Square(o) == \A i \in DOMAIN o : Len(o[i]) = Len(o)
Anti(o) == \A i, j \in DOMAIN o : o[i][j] = -o[j][i]
Standard(m) == [i \in 1 .. 2 * m |-> [j \in 1 .. 2 * m |-> IF j = i + m THEN 1 ELSE IF i = j + m THEN -1 ELSE 0]]
RECURSIVE Dot(_, _, _)
Dot(a, b, k) == IF k = 0 THEN 0 ELSE a[k] * b[k] + Dot(a, b, k - 1)
Times(o, v) == [i \in DOMAIN o |-> Dot(o[i], v, Len(v))]
(* The vector field v (times s) of a function p: o*v = -dp. *)
FieldOf(o, p, x, v, s) == Times(o, v) = [i \in DOMAIN x |-> -s * D0(p, x)[i]]
(* Hamilton's equations: states follow dH/dlam, costates -dH/dx. *)
Hamilton(p, x) == LET m == Len(x) \div 2 IN [i \in DOMAIN x |-> IF i <= m THEN Part(p, i + m, x) ELSE -Part(p, i - m, x)]
(* Pfaffian of a form of size 2 or 4: it is degenerate if zero. *)
Pfaff(o) == IF Len(o) = 2 THEN o[1][2] ELSE o[1][2] * o[3][4] - o[1][3] * o[2][4] + o[1][4] * o[2][3]

(* The total derivative of p, whose last arguments stand for functions qs of the first ones. *)
Eval(p, x) == Deriv(p, [k \in DOMAIN x |-> 0], x)
Extend(qs, x) == x \o [j \in DOMAIN qs |-> Eval(qs[j], x)]
Total1(p, qs, k, x) == LET X == Extend(qs, x) IN
    Part(p, k, X) + SumSet(LAMBDA j : Part(p, Len(x) + j, X) * Part(qs[j], k, x), DOMAIN qs)
(* The field of a function with respect to a form, and its effect on another function. *)
Bracket(o, g, x) == Times(o, D0(g, x))
(* Noether: states that may be moved along the field f (functions of the states; x holds states and costates) *)
(* have the constant of motion f1*lam1 + f2*lam2 + ...                                                      *)
States(x) == SubSeq(x, 1, Len(x) \div 2)
Momentum(f, x) == SumSet(LAMBDA i : Eval(f[i], States(x)) * x[i + Len(f)], DOMAIN f)
DMomentum(f, x) == [k \in DOMAIN x |-> IF k > Len(f) THEN Eval(f[k - Len(f)], States(x))
                                        ELSE SumSet(LAMBDA i : Part(f[i], k, States(x)) * x[i + Len(f)], DOMAIN f)]
(* The motion of states and costates that moving the states along f means. *)
Lift(f, x) == [k \in DOMAIN x |-> IF k <= Len(f) THEN Eval(f[k], States(x)) ELSE -DMomentum(f, x)[k - Len(f)]]
Along(p, v, x) == Dot(D0(p, x), v, Len(x))
=============================================================================
