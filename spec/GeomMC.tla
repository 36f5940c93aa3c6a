------------------------------- MODULE GeomMC -------------------------------
EXTENDS Geom, TLC, Json, IOUtils
CONSTANTS Big, Every
OutDir == IOEnv.OUTDIR
VARIABLE q
Exps(n) == [1 .. n -> 0 .. 2]
Pts(n) == CASE n = 2 -> << 2, -3 >> [] n = 3 -> << 1, -2, 3 >> [] OTHER -> << 2, -1, 3, 1 >>
P2(a, b) == << [c |-> 2, e |-> a], [c |-> -3, e |-> b] >>
Polys(n) == IF n < 4 \/ Big THEN {P2(a, b) : a, b \in Exps(n)}
            ELSE {P2(a, [k \in 1 .. n |-> a[n + 1 - k]]) : a \in Exps(n)} \cup {P2(a, [k \in 1 .. n |-> (a[(k % n) + 1] + k) % 3]) : a \in Exps(n)}
Entries == {-1, 0, 1}
Mats == {[i \in 1 .. n |-> [j \in 1 .. m |-> IF j <= Len(r) THEN r[((i * j) % Len(r)) + 1] ELSE 0]] :
            n \in 1 .. 3, m \in 1 .. 3, r \in [1 .. 2 -> Entries]}
Full2 == {<< << a, b >>, << c, d >> >> : a, b, c, d \in Entries}
Anti4 == {<< << 0, a, b, c >>, << -a, 0, d, e >>, << -b, -d, 0, f >>, << -c, -e, -f, 0 >> >> : a, b, c, d, e, f \in Entries}
(* an antisymmetric form with one entry spoilt *)
Spoilt == {[o EXCEPT ![i][j] = @ + 1] : o \in {Standard(2), Standard(1), << << 0, 1, 0, -1 >>, << -1, 0, 1, 0 >>, << 0, -1, 0, 1 >>, << 1, 0, -1, 0 >> >>},
                                        i \in 1 .. 2, j \in 1 .. 2}
RECURSIVE Digest(_, _)
Digest(s, i) == IF i = 0 THEN 7 ELSE (Digest(s, i - 1) * 131 + s[i] + 1000) % 10007
Rot(p, k) == [i \in DOMAIN p |-> [c |-> p[i].c + k, e |-> [j \in DOMAIN p[i].e |-> p[i].e[((j + k) % Len(p[i].e)) + 1]]]]
(* a polynomial in fewer or more variables *)
Cut(p, m) == [i \in DOMAIN p |-> [p[i] EXCEPT !.e = SubSeq(@, 1, m)]]
Wide(p, m) == [i \in DOMAIN p |-> [p[i] EXCEPT !.e = [k \in 1 .. m |-> @[((k + i) % Len(@)) + 1]]]]
Polys3 == {P2(<< a, b, 1 >>, << 1, c, b >>) : a, b, c \in 0 .. 2}
(* Hamiltonians of two states and their costates, and fields: shifts, a rotation, a change of scale, a spiral *)
T(c, e) == [c |-> c, e |-> e]
Hams == {<< T(1, << 2, 0, 0, 0 >>), T(1, << 0, 2, 0, 0 >>), T(a, << 1, 0, 0, 1 >>), T(-a, << 0, 1, 1, 0 >>), T(b, << 0, 0, 2, 0 >>), T(b, << 0, 0, 0, 2 >>) >> : a, b \in -1 .. 2}
        \cup {<< T(a, << 1, 0, 1, 0 >>), T(b, << 0, 1, 0, 1 >>), T(1, << 2, 0, 2, 0 >>), T(c, << 0, 0, 0, 2 >>) >> : a, b, c \in -1 .. 2}
        \cup {<< T(a, << 0, 0, 2, 1 >>), T(b, << 0, 0, 1, 2 >>), T(c, << 0, 1, 1, 0 >>) >> : a, b, c \in -1 .. 2}
Fields == {<< << T(1, << 0, 0 >>) >>, << T(a, << 0, 0 >>) >> >> : a \in 0 .. 2}
          \cup {<< << T(-1, << 0, 1 >>), T(a, << 1, 0 >>) >>, << T(1, << 1, 0 >>), T(a, << 0, 1 >>) >> >> : a \in 0 .. 2}
          \cup {<< << T(a, << 1, 0 >>) >>, << T(b, << 0, 1 >>) >> >> : a, b \in -1 .. 1}
Grid == {<< a, b, c, d >> : a, b, c, d \in {-1, 1, 2}}
Init == \/ \E n \in 2 .. 4 : \E p \in Polys(n) : q = [k |-> "func", p |-> p, x |-> Pts(n)]
        \/ \E n \in 2 .. 4 : \E p \in Polys(n) : q = [k |-> "form", f |-> [i \in 1 .. n |-> Rot(p, i)], x |-> Pts(n)]
        \/ \E n \in {2, 4} : \E p \in Polys(n) : q = [k |-> "ham", p |-> p, x |-> Pts(n)]
        \/ \E o \in Anti4 : Pfaff(o) # 0 /\ \E p \in {P2(<< 1, 2, 0, 1 >>, << 0, 1, 2, 2 >>)} : q = [k |-> "field", o |-> o, p |-> p, x |-> Pts(4)]
        \/ \E o \in Mats \cup Full2 \cup Anti4 \cup Spoilt : q = [k |-> "symp", o |-> o]
        \/ \E a, b \in 1 .. 4 : q = [k |-> "std", a |-> a, b |-> b]
        \/ \E n \in 1 .. 2 : \E a, b \in [1 .. 3 -> 0 .. 2] : \E c \in Exps(3 - n) : \E k \in 1 .. (3 - n) :
              q = [k |-> "total", p |-> P2(a, b), x |-> SubSeq(<< 2, -3 >>, 1, 3 - n), v |-> k,
                   qs |-> [j \in 1 .. n |-> P2(c, [i \in DOMAIN c |-> (c[i] + i + j) % 3])]]
        \/ \E m \in 1 .. 3 : \E p \in IF m < 3 THEN Polys(m + 1) ELSE Polys3 : \E s \in 1 .. 3 :
              q = [k |-> "mom", f |-> [i \in 1 .. m |-> Cut(Rot(p, i * s), m)], g |-> Wide(p, 2 * m),
                   x |-> SubSeq(<< 2, -3, 1, -1, 2, 3 >>, 1, 2 * m)]
        \/ \E h \in Hams, f \in Fields : q = [k |-> "noether", h |-> h, f |-> f]
Spec == Init /\ [][UNCHANGED q]_q
(* The differential of a differential vanishes. *)
Closed == q.k = "func" => \A i, j \in DOMAIN q.x : Part2(q.p, i, j, q.x) - Part2(q.p, j, i, q.x) = 0
Antisym == q.k = "form" => Anti(D1(q.f, q.x))
(* The field of the standard form is Hamilton's. *)
IsHamilton == q.k = "ham" => FieldOf(Standard(Len(q.x) \div 2), q.p, q.x, Hamilton(q.p, q.x), 1)
StdFine == q.k = "std" => Anti(Standard(q.a)) /\ (q.a <= 2 => Pfaff(Standard(q.a)) # 0)
(* A function that is a polynomial of degree below three in a variable has the derivative a symmetric difference gives. *)
Deg(p, k) == CHOOSE d \in 0 .. 6 : (\E i \in DOMAIN p : p[i].e[k] = d) /\ \A i \in DOMAIN p : p[i].e[k] <= d
TermDeg(e, n, qs, k) == e[k] + SumSet(LAMBDA j : e[n + j] * Deg(qs[j], k), DOMAIN qs)
ChainRule == q.k = "total" =>
    LET n == Len(q.x)
        F(s) == Eval(q.p, Extend(q.qs, [q.x EXCEPT ![q.v] = @ + s]))
    IN (\A i \in DOMAIN q.p : TermDeg(q.p[i].e, n, q.qs, q.v) <= 2) => 2 * Total1(q.p, q.qs, q.v, q.x) = F(1) - F(-1)
(* Moving along the field of a momentum is the motion it belongs to; what is not changed by that motion keeps it. *)
IsMoved == q.k = "mom" => Bracket(Standard(Len(q.f)), q.g, q.x) = Hamilton(q.g, q.x)
           /\ Times(Standard(Len(q.f)), DMomentum(q.f, q.x)) = Lift(q.f, q.x)
Noether == q.k = "noether" => ((\A x \in Grid : Along(q.h, Lift(q.f, x), x) = 0) =>
                               \A x \in Grid : Dot(DMomentum(q.f, x), Hamilton(q.h, x), 4) = 0)
RECURSIVE Cat(_, _)
Cat(s, i) == IF i = 0 THEN << >> ELSE Cat(s, i - 1) \o s[i]
Flat == CASE q.k \in {"func", "ham"} -> q.p[1].e \o q.p[2].e [] q.k = "form" -> q.f[1][1].e \o q.f[1][2].e
          [] q.k \in {"field", "symp"} -> Cat(q.o, Len(q.o)) [] q.k = "total" -> q.p[1].e \o q.p[2].e \o q.qs[1][1].e [] q.k = "mom" -> Cat([i \in DOMAIN q.f |-> q.f[i][1].e \o q.f[i][2].e], Len(q.f))
          [] OTHER -> << >>
Chosen == q.k # "noether" /\ ( q.k = "std" \/ (q.k = "symp" /\ Len(q.o) <= 2) \/ Digest(Flat, Len(Flat)) % (IF q.k = "total" THEN 6 * Every ELSE IF q.k = "mom" THEN 4 * Every ELSE Every) = 0)
Emit == (OutDir # "" /\ Chosen) =>
    Serialize(ToJson(q) \o "\n", OutDir \o "/cases.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
=============================================================================
