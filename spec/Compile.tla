------------------------------ MODULE Compile ------------------------------
(* Compiling a formula.                                                        *)
(*   formula    << "x", p >>, p a polynomial << [c, e] >> over the symbols, or *)
(*              << "t", << formulas >> >>                                      *)
(*   signature  how the symbols are handed over: a sequence of                 *)
(*              -1 (one symbol, a number) or k >= 0 (an array of k symbols)    *)
(*   call       a value, << re, im >> in whole numbers, for every symbol       *)
(* A compiled formula is a function of the values alone: neither the           *)
(* signature nor what was compiled or called before matters.                   *)
(* One more symbol than the signature has stands for g(z1), a function known   *)
(* by name to the compiler, g(z) = z^2 - 3 or, where replaced, z + 5.          *)
EXTENDS Integers, Sequences, FiniteSets

CMul(a, b) == << a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1] >>
CAdd(a, b) == << a[1] + b[1], a[2] + b[2] >>
Conj(a) == << a[1], -a[2] >>
RECURSIVE CPow(_, _)
CPow(a, k) == IF k = 0 THEN << 1, 0 >> ELSE CMul(a, CPow(a, k - 1))
RECURSIVE Mono(_, _, _)
Mono(e, z, i) == IF i = 0 THEN << 1, 0 >> ELSE CMul(Mono(e, z, i - 1), CPow(z[i], e[i]))
RECURSIVE Poly(_, _, _)
Poly(p, z, i) == IF i = 0 THEN << 0, 0 >> ELSE CAdd(Poly(p, z, i - 1), CMul(<< p[i].c, 0 >>, Mono(p[i].e, z, Len(z))))
RECURSIVE Value(_, _)
Value(f, z) == IF f[1] = "x" THEN << "x", Poly(f[2], z, Len(f[2])) >>
               ELSE << "t", [i \in DOMAIN f[2] |-> Value(f[2][i], z)] >>
RECURSIVE Shape(_)
Shape(f) == IF f[1] = "x" THEN << "x", << >> >> ELSE << "t", [i \in DOMAIN f[2] |-> Shape(f[2][i])] >>
RECURSIVE MapV(_, _)
MapV(Op(_), v) == IF v[1] = "x" THEN << "x", Op(v[2]) >> ELSE << "t", [i \in DOMAIN v[2] |-> MapV(Op, v[2][i])] >>

Size(k) == IF k < 0 THEN 1 ELSE k
RECURSIVE Count(_)
Count(sig) == IF sig = << >> THEN 0 ELSE Size(sig[1]) + Count(Tail(sig))
(* The values as handed over, and read back in order. *)
RECURSIVE Args(_, _)
Args(sig, z) == IF sig = << >> THEN << >>
                ELSE << SubSeq(z, 1, Size(sig[1])) >> \o Args(Tail(sig), SubSeq(z, Size(sig[1]) + 1, Len(z)))
RECURSIVE Concat(_)
Concat(a) == IF a = << >> THEN << >> ELSE a[1] \o Concat(Tail(a))

Named(g, z) == IF z = << >> THEN << 0, 0 >>
               ELSE IF g = "square" THEN CAdd(CMul(z[1], z[1]), << -3, 0 >>) ELSE CAdd(z[1], << 5, 0 >>)
Result(f, sig, g, z) == LET zz == Concat(Args(sig, z)) IN Value(f, zz \o << Named(g, zz) >>)
=============================================================================
