----------------------------- MODULE CompileMC -----------------------------
(* All small signatures, with formulas and points spread over them.  A state  *)
(* is one compiled formula and its calls.                                      *)
EXTENDS Compile, TLC, Json, IOUtils
CONSTANTS MaxArgs, MaxSize, Variants, Every
OutDir == IOEnv.OUTDIR
VARIABLE c
Groups == (0 .. MaxSize) \cup {-1}
Sigs == UNION {[1 .. n -> Groups] : n \in 1 .. MaxArgs}
RECURSIVE Hash(_, _)
Hash(s, i) == IF i = 0 THEN 17 ELSE ((Hash(s, i - 1) * 31) + s[i] + 2) % 9973
Pick(h, k) == ((h * (2 * k + 3)) + (k * k)) % 97
(* Exponents at most two, coefficients between -3 and 3. *)
Term(n, h, k) == [c |-> (Pick(h, k) % 7) - 3, e |-> [i \in 1 .. n |-> IF (Pick(h, k + 5 * i) % 3) = 1 THEN 1 + (Pick(h, k + i) % 2) ELSE 0]]
Leaf(n, h, k) == << "x", [j \in 1 .. (1 + (Pick(h, k) % 3)) |-> Term(n, h, k + 7 * j)] >>
Form(n, h) ==
    CASE h % 5 = 0 -> Leaf(n, h, 1)
      [] h % 5 = 1 -> << "t", << Leaf(n, h, 1), Leaf(n, h, 2) >> >>
      [] h % 5 = 2 -> << "t", << << "t", << Leaf(n, h, 1), Leaf(n, h, 2) >> >>, << "t", << Leaf(n, h, 3), Leaf(n, h, 4) >> >> >> >>
      [] h % 5 = 3 -> << "t", << Leaf(n, h, 1) >> >>
      [] OTHER -> << "t", << Leaf(n, h, 1), << "t", << Leaf(n, h, 2) >> >>, Leaf(n, h, 3) >> >>
Point(n, h, cplx) == [i \in 1 .. n |-> << (Pick(h, 3 * i) % 7) - 3, IF cplx THEN (Pick(h, 4 * i + 1) % 5) - 2 ELSE 0 >>]
Init == \E sig \in Sigs, v \in 1 .. Variants, cplx \in BOOLEAN, g \in {"square", "shift"} :
          LET n == Count(sig)
              h == Hash(sig \o << v, IF cplx THEN 1 ELSE 0, Len(g) >>, Len(sig) + 3)
          IN  /\ n > 0 /\ n <= 6
              /\ c = [sig |-> sig, cplx |-> cplx, g |-> g, f |-> Form(n + 1, h), h |-> h,
                      zs |-> << Point(n, h, cplx), Point(n, h + 11, cplx), Point(n, h + 30, cplx) >>]
Spec == Init /\ [][UNCHANGED c]_c
Out(k) == Result(c.f, c.sig, c.g, c.zs[k])
(* A signature only groups the values. *)
Regrouped == \A k \in DOMAIN c.zs : /\ Concat(Args(c.sig, c.zs[k])) = c.zs[k]
                                    /\ Out(k) = Result(c.f, << Count(c.sig) >>, c.g, c.zs[k])
Shaped == \A k \in DOMAIN c.zs : Shape(Out(k)) = Shape(c.f)
(* Real formulas: conjugate values give conjugate results, real ones real ones. *)
Conjugate == \A k \in DOMAIN c.zs :
    Result(c.f, c.sig, c.g, [i \in DOMAIN c.zs[k] |-> Conj(c.zs[k][i])]) = MapV(Conj, Out(k))
Chosen == (c.h % Every) = 0
Emit == (OutDir # "" /\ Chosen) =>
    Serialize(ToJson(c) \o "\n", OutDir \o "/cases.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
=============================================================================
