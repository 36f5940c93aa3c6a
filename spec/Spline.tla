------------------------------- MODULE Spline -------------------------------
(* A one-dimensional table: the natural cubic spline through its points.       *)
(*   h   lengths of the segments            (whole numbers)                    *)
(*   x0  first argument                                                        *)
(*   y   values at the knots                (one more than segments)           *)
(*   Z   sixths of the second derivatives at the knots                         *)
(* On segment i, with s the distance from its left knot, the table is          *)
(*   y[i] + c1*s + 3*Z[i]*s^2 + (Z[i+1]-Z[i])/h*s^3                            *)
(*   c1 = (y[i+1]-y[i])/h - h*(2*Z[i]+Z[i+1])                                  *)
(* Arguments are s = q*h/4; beyond the data the end segments continue.         *)
EXTENDS Integers, Sequences

Segs(t) == Len(t.h)
(* Values are fractions << numerator, denominator >> with denominator 64*h. *)
C1h(t, i) == (t.y[i + 1] - t.y[i]) - t.h[i] * t.h[i] * (2 * t.Z[i] + t.Z[i + 1])     \* c1*h
Value(t, i, q, order) ==
    LET hh == t.h[i]
        d == t.Z[i + 1] - t.Z[i]
    IN  CASE order = 0 -> << 64 * t.y[i] + 16 * q * C1h(t, i) + 12 * t.Z[i] * q * q * hh * hh + d * q * q * q * hh * hh, 64 >>
          [] order = 1 -> << 16 * C1h(t, i) + 24 * t.Z[i] * q * hh * hh + 3 * d * q * q * hh * hh, 16 * hh >>
          [] order = 2 -> << 12 * t.Z[i] + 3 * d * q, 2 >>
          [] order = 3 -> << 6 * d, hh >>
          [] OTHER -> << 0, 1 >>
SameValue(a, b) == a[1] * b[2] = b[1] * a[2]

(* The table a list of second derivatives belongs to. *)
Slope(b, h, Z, i) == b + h[i - 1] * (Z[i - 1] + 2 * Z[i]) + h[i] * (2 * Z[i] + Z[i + 1])
RECURSIVE Slopes(_, _, _, _)
Slopes(b1, h, Z, i) == IF i = 1 THEN << b1 >>
                       ELSE LET r == Slopes(b1, h, Z, i - 1) IN Append(r, Slope(r[i - 1], h, Z, i))
RECURSIVE Heights(_, _, _, _)
Heights(y1, b, h, i) == IF i = 0 THEN << y1 >>
                        ELSE LET r == Heights(y1, b, h, i - 1) IN Append(r, r[i] + b[i] * h[i])
Table(x0, y1, b1, h, Zin) ==
    LET Z == << 0 >> \o Zin \o << 0 >>
        b == Slopes(b1, h, Z, Len(h))
    IN  [x0 |-> x0, h |-> h, Z |-> Z, y |-> Heights(y1, b, h, Len(h))]

RECURSIVE Knot(_, _)
Knot(t, i) == IF i = 1 THEN t.x0 ELSE Knot(t, i - 1) + t.h[i - 1]

(* What makes it the natural cubic spline of its points. *)
Interpolates(t) == \A i \in 1 .. Segs(t) : SameValue(Value(t, i, 0, 0), << t.y[i], 1 >>)
                                           /\ SameValue(Value(t, i, 4, 0), << t.y[i + 1], 1 >>)
Smooth(t) == \A i \in 1 .. (Segs(t) - 1) : \A k \in 0 .. 2 : SameValue(Value(t, i, 4, k), Value(t, i + 1, 0, k))
Natural(t) == Value(t, 1, 0, 2)[1] = 0 /\ Value(t, Segs(t), 4, 2)[1] = 0
(* The orders are derivatives of one another: central differences of a cubic are exact up to its third derivative. *)
Derivatives(t) ==
    \A i \in 1 .. Segs(t) : \A q \in 0 .. 4 :
        LET v(k, qq) == Value(t, i, qq, k)[1]
            h2 == t.h[i] * t.h[i]
        IN  /\ 3 * (v(0, q + 1) - v(0, q - 1)) = 6 * v(1, q) + h2 * v(3, q)
            /\ v(1, q + 1) - v(1, q - 1) = 4 * h2 * v(2, q)
            /\ v(2, q + 1) - v(2, q - 1) = v(3, q)
=============================================================================
