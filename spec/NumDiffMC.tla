----------------------------- MODULE NumDiffMC ------------------------------
(* All small grids, polynomials and orders.                                    *)
EXTENDS NumDiff, TLC, Json, IOUtils
CONSTANTS PtsMax, Lo, Hi, OrdMax, Every, EveryG
OutDir == IOEnv.OUTDIR
VARIABLE q
Points == Lo - 5 .. Hi - 5                       \* (the configuration file has no negative numbers)
Grids == UNION {{G \in [1 .. n -> Points] : \A i, j \in 1 .. n : i # j => G[i] # G[j]} : n \in 1 .. PtsMax}
Polys1 == {<< [c |-> 2, e |-> << a >>], [c |-> -3, e |-> << b >>], [c |-> 1, e |-> << 0 >>] >> : a \in 1 .. 4, b \in 0 .. 3}
Polys2 == {<< [c |-> 1, e |-> << a, b >>], [c |-> -2, e |-> << c, a >>], [c |-> 3, e |-> << b, c >>] >> : a \in 0 .. 3, b \in 0 .. 2, c \in 0 .. 2}
Polys3 == {<< [c |-> 1, e |-> << a, b, c >>], [c |-> 2, e |-> << b, c, a >>] >> : a \in 0 .. 2, b \in 0 .. 2, c \in 0 .. 2}
Orders(n) == {o \in [1 .. n -> 0 .. OrdMax] : \E k \in 1 .. n : \A j \in 1 .. n : o[j] <= OrdMax - (IF j = k THEN 0 ELSE 1)}
Methods == {"f_diff", "b_diff", "c_diff", "csd"}
Ats(n) == CASE n = 1 -> {<< 0 >>, << 2 >>, << -1 >>} [] n = 2 -> {<< 1, -2 >>, << 0, 3 >>} [] OTHER -> {<< 1, 2, -1 >>}
Case(n, P) == \E p \in P, o \in Orders(n), m \in Methods, x \in Ats(n), a \in 1 .. 3 :
                 /\ (m = "csd" => a = 1) /\ q = [k |-> "diff", p |-> p, o |-> o, m |-> m, a |-> a, x |-> x]
Init == \/ \E G \in Grids, d \in 0 .. OrdMax : q = [k |-> "grid", g |-> G, d |-> d]
        \/ Case(1, Polys1) \/ Case(2, Polys2) \/ Case(3, Polys3)
        \/ \E n \in 1 .. 3 : \E o \in Orders(n), m \in Methods \ {"csd"} : q = [k |-> "kink", o |-> o, m |-> m]
Spec == Init /\ [][UNCHANGED q]_q
Formulas == q.k = "grid" /\ Enough(q.g, q.d) => Exact(q.g, q.d)
(* What is said about sides follows from the formula being one-sided, or symmetric, and exact. *)
Upper(d) == [i \in 1 .. (d + 1) |-> i - 1]
Lower(d) == [i \in 1 .. (d + 1) |-> i - d - 1]
Middle(d) == LET r == (d + 1) \div 2 IN [i \in 1 .. (2 * r + 1) |-> i - 1 - r]
PosPow(d, x) == IF x > 0 THEN Pow(x, d) ELSE 0
Sides == q.k = "kink" /\ Len(q.o) = 1 /\ q.o[1] > 0 =>
           LET d == q.o[1]
               r == Apply(CASE q.m = "f_diff" -> Upper(d) [] q.m = "b_diff" -> Lower(d) [] OTHER -> Middle(d), d, LAMBDA x : PosPow(d, x))
           IN  r[1] * Kink(q.o, q.m)[2] = r[2] * Kink(q.o, q.m)[1]
(* Derivatives are linear, commute and agree with one another order by order (Leibniz on x*p at 0 shift). *)
Raise(p, k) == [i \in DOMAIN p |-> [c |-> p[i].c, e |-> [p[i].e EXCEPT ![k] = @ + 1]]]
Leibniz == q.k = "diff" => \A k \in DOMAIN q.o :
             Deriv(Raise(q.p, k), q.o, q.x) = q.x[k] * Deriv(q.p, q.o, q.x)
                 + (IF q.o[k] = 0 THEN 0 ELSE q.o[k] * Deriv(q.p, [q.o EXCEPT ![k] = @ - 1], q.x))
(* Raising the accuracy, or being symmetric, widens the formula as claimed. *)
Widths == q.k = "kink" /\ Len(q.o) = 1 /\ q.o[1] > 0 => \A a \in 1 .. 3 :
            LET d == q.o[1]
                G == CASE q.m = "f_diff" -> [i \in 1 .. (d + a) |-> i - 1]
                       [] q.m = "b_diff" -> [i \in 1 .. (d + a) |-> i - d - a]
                       [] OTHER -> LET r == (d + a) \div 2 IN [i \in 1 .. (2 * r + 1) |-> i - 1 - r]
            IN  Len(G) <= 5 => \A p \in 0 .. (d + Slack(q.m, a)) :
                    LET r == Apply(G, d, LAMBDA x : Pow(x, p)) IN r[1] = (IF p = d THEN Fact(d) ELSE 0) * r[2]
RECURSIVE Digest(_, _)
Digest(s, i) == IF i = 0 THEN 7 ELSE (Digest(s, i - 1) * 131 + s[i] + 1000) % 10007
Flat == IF q.k = "grid" THEN q.g \o << q.d >>
        ELSE IF q.k = "kink" THEN << 1 >>
        ELSE q.o \o q.x \o q.p[1].e \o q.p[2].e \o << q.a, CASE q.m = "f_diff" -> 1 [] q.m = "b_diff" -> 5 [] q.m = "c_diff" -> 11 [] OTHER -> 17 >>
Chosen == q.k = "kink" \/ (Digest(Flat, Len(Flat)) % (IF q.k = "grid" THEN EveryG ELSE Every)) = 0
Emit == (OutDir # "" /\ Chosen) =>
    Serialize(ToJson(q) \o "\n", OutDir \o "/cases.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
=============================================================================
