------------------------------ MODULE SplineMC ------------------------------
(* All small tables, with the values every one of them must have.             *)
EXTENDS Spline, TLC, Json, IOUtils
CONSTANTS NMax, Zs, Hs, Every
OutDir == IOEnv.OUTDIR
ZsSmall == {-1, 0, 2}
ZsBig == {-2, -1, 0, 1, 3}
VARIABLE t
Init == \E n \in 2 .. NMax : \E x0 \in {-2, 0}, b1 \in {-1, 2} : \E h \in [1 .. n -> Hs], Z \in [1 .. (n - 1) -> Zs] :
            t = Table(x0, 1, b1, h, Z)
Spec == Init /\ [][UNCHANGED t]_t
IsSpline == Interpolates(t) /\ Smooth(t) /\ Natural(t)
Consistent == Derivatives(t)
RECURSIVE Digest(_, _)
Digest(s, i) == IF i = 0 THEN 7 ELSE (Digest(s, i - 1) * 131 + s[i] + 1000) % 10007
Chosen == (Digest(t.h \o t.Z \o t.y \o << t.x0 >>, 2 * Len(t.Z) + Len(t.h) + 1) % Every) = 0
(* Quarter points of every segment, the first one from before the data, the last one beyond it. *)
Qs(i) == (IF i = 1 THEN << -2 >> ELSE << >>) \o << 0, 1, 2, 3 >> \o (IF i = Segs(t) THEN << 4, 6 >> ELSE << >>)
Points(i) == [k \in DOMAIN Qs(i) |-> [i |-> i, q |-> Qs(i)[k], x4 |-> 4 * Knot(t, i) + Qs(i)[k] * t.h[i],
                                      v |-> [o \in 1 .. 3 |-> Value(t, i, Qs(i)[k], o - 1)]]]
RECURSIVE AllPoints(_)
AllPoints(i) == IF i = 0 THEN << >> ELSE AllPoints(i - 1) \o Points(i)
Emit == (OutDir # "" /\ Chosen) =>
    Serialize(ToJson([x |-> [i \in 1 .. (Segs(t) + 1) |-> Knot(t, i)], y |-> t.y, t |-> t, pts |-> AllPoints(Segs(t))]) \o "\n",
              OutDir \o "/tables.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
=============================================================================
