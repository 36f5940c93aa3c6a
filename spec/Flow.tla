-------------------------------- MODULE Flow ---------------------------------
(* Propagation of differential equations and quadratures.  Times are in tenths *)
(* (integers), values in 1/6000ths.  The equations                             *)
(*      y1' = p y2,  y2' = c,  q1' = y2,  q2' = y1                             *)
(* have polynomial solutions, so the flow over any duration is exact.          *)
EXTENDS Integers, Sequences, TLC
Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE 1
One == 6000
(* st = << y1, y2, q1, q2 >>; y2 is a multiple of 600, y1 of 30. *)
Start(a, b, q1, q2) == << One * a, One * b, One * q1, One * q2 >>
Flow(st, p, c, T) ==
    << st[1] + p * ((st[2] \div 10) * T + 30 * c * T * T),
       st[2] + 600 * c * T,
       st[3] + (st[2] \div 10) * T + 30 * c * T * T,
       st[4] + (st[1] \div 10) * T + p * ((st[2] \div 200) * T * T + c * T * T * T) >>
(* Second derivative of y1 along the flow bounds the error of a first Simpson  *)
(* interval: |q2''' | h^3 / 12 with h the largest step (tenths), in 1/6000ths. *)
Slack(p, c, h) == (Abs(p * c) * h * h * h) \div 2 + 6

(* The quadrature of  A + B t  over [a, b] (tenths), in 1/200ths.              *)
Quad(A, B, a, b) == 20 * A * (b - a) + B * (b * b - a * a)
(* Points of a fixed-step mesh: every h from a, and b itself. *)
RECURSIVE Fixed(_, _, _)
Fixed(a, b, h) == IF Abs(b - a) <= h THEN << a, b >> ELSE << a >> \o Fixed(a + Sgn(b - a) * h, b, h)
=============================================================================
