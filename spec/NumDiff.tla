------------------------------ MODULE NumDiff -------------------------------
(* Numerical derivatives: the weights of a difference formula on a grid of     *)
(* whole numbers, and what a derivative of any (mixed) order must be.          *)
(*   grid   sequence of different whole numbers                                *)
(*   poly   sequence of terms [c, e]: coefficient, exponent of every argument  *)
(* Fractions are << numerator, denominator >>.                                 *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Fact(_), Pow(_, _)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE SumSet(_, _)
SumSet(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f(x) + SumSet(f, S \ {x})
RECURSIVE ProdSet(_, _)
ProdSet(f(_), S) == IF S = {} THEN 1 ELSE LET x == CHOOSE y \in S : TRUE IN f(x) * ProdSet(f, S \ {x})

(* The weight of point j: d! times the coefficient of x^d in Lagrange's polynomial of the point. *)
Others(G, j) == (DOMAIN G) \ {j}
(* (-1)^k times the elementary symmetric polynomial of degree k of the other points *)
Sym(G, S, k) == SumSet(LAMBDA T : ProdSet(LAMBDA m : -G[m], T), {T \in SUBSET S : Cardinality(T) = k})
Weight(G, j, d) == << Fact(d) * Sym(G, Others(G, j), Len(G) - 1 - d), ProdSet(LAMBDA m : G[j] - G[m], Others(G, j)) >>
Enough(G, d) == Len(G) > d

(* Applying weights to the values of a function at the points, over the common denominator. *)
Common(G) == ProdSet(LAMBDA j : Weight(G, j, 0)[2], DOMAIN G)
Apply(G, d, f(_)) == << SumSet(LAMBDA j : Weight(G, j, d)[1] * (Common(G) \div Weight(G, j, d)[2]) * f(G[j]), DOMAIN G), Common(G) >>
(* The formula is exact for every power below the number of points. *)
Exact(G, d) == \A p \in 0 .. (Len(G) - 1) :
                  LET r == Apply(G, d, LAMBDA x : Pow(x, p)) IN r[1] = (IF p = d THEN Fact(d) ELSE 0) * r[2]

-----------------------------------------------------------------------------
(* The derivative of order o (one number per argument) of a polynomial. *)
RECURSIVE Fall(_, _)
Fall(e, o) == IF o = 0 THEN 1 ELSE IF e < o THEN 0 ELSE e * Fall(e - 1, o - 1)
RECURSIVE TermAt(_, _, _, _)
TermAt(e, o, x, k) == IF k = 0 THEN 1
                      ELSE TermAt(e, o, x, k - 1) * Fall(e[k], o[k]) * (IF e[k] < o[k] THEN 0 ELSE Pow(x[k], e[k] - o[k]))
RECURSIVE DerivAt(_, _, _, _)
DerivAt(p, o, x, i) == IF i = 0 THEN 0 ELSE DerivAt(p, o, x, i - 1) + p[i].c * TermAt(p[i].e, o, x, Len(x))
Deriv(p, o, x) == DerivAt(p, o, x, Len(p))
(* A difference formula of accuracy a is exact if no exponent is a or more above the order, one more if it is symmetric. *)
Max(a, b) == IF a > b THEN a ELSE b
Slack(m, a) == IF m = "c_diff" THEN Max(a, 2) - 1 ELSE a - 1
Tight(p, o, m, a) == \A i \in DOMAIN p : \A k \in DOMAIN o : o[k] > 0 => p[i].e[k] <= o[k] + Slack(m, a)
(* Otherwise it is off by the step times a derivative of the next order, near the point. *)
Abs(a) == IF a < 0 THEN -a ELSE a
AbsOf(p) == [i \in DOMAIN p |-> [c |-> Abs(p[i].c), e |-> p[i].e]]
Next1(p, o, x) == SumSet(LAMBDA k : IF o[k] = 0 THEN 0
                            ELSE Deriv(AbsOf(p), [o EXCEPT ![k] = @ + 1], [j \in DOMAIN x |-> Abs(x[j]) + 1]), DOMAIN o)
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumSeq(s, i - 1)
Total(o) == SumSeq(o, Len(o))
(* At its kink the function max(x, 0)^d times max(y, 0)^e ... shows which side a formula looks at: *)
(* its derivative of order (d, e, ..) from above, from below, and from both sides alike.           *)
RECURSIVE FactProd(_, _)
FactProd(o, k) == IF k = 0 THEN 1 ELSE Fact(o[k]) * FactProd(o, k - 1)
Kink(o, method) == LET n == Cardinality({k \in DOMAIN o : o[k] > 0}) IN
                   CASE method = "f_diff" -> << FactProd(o, Len(o)), 1 >>
                     [] method = "b_diff" -> << IF n = 0 THEN 1 ELSE 0, 1 >>
                     [] OTHER -> << FactProd(o, Len(o)), Pow(2, n) >>
=============================================================================
