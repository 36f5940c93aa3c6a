-------------------------------- MODULE Traj ---------------------------------
(* A trajectory: columns of data on a mesh, evaluated between the nodes by the *)
(* chosen interpolation, always of the data it holds at that moment.           *)
(* Nodes are integers; the data are values of polynomials << c0, c1, c2, c3 >> *)
(* so that cubic interpolation is exact; evaluation times are quarters; values *)
(* are in 1/64ths.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(n) == IF n < 0 THEN -n ELSE n
(* 64 P(tau / 4) *)
P64(c, tau) == 64 * c[1] + 16 * c[2] * tau + 4 * c[3] * tau * tau + c[4] * tau * tau * tau
Data(c, mesh) == [i \in DOMAIN mesh |-> P64(c, 4 * mesh[i]) \div 64]
(* The nodes around tau: << left, right >> in increasing order of time.        *)
Bracket(mesh, tau) == CHOOSE p \in (DOMAIN mesh) \X (DOMAIN mesh) :
    /\ 4 * mesh[p[1]] <= tau /\ tau <= 4 * mesh[p[2]] /\ mesh[p[1]] < mesh[p[2]]
    /\ \A k \in DOMAIN mesh : ~(mesh[p[1]] < mesh[k] /\ mesh[k] < mesh[p[2]])
Linear(c, mesh, tau) ==
    LET b == Bracket(mesh, tau)
        lo == mesh[b[1]]  hi == mesh[b[2]]
        yl == P64(c, 4 * lo)  yh == P64(c, 4 * hi)
    IN  (yl * (4 * hi - tau) + yh * (tau - 4 * lo)) \div (4 * (hi - lo))
Value(interp, c, mesh, tau) ==
    CASE interp = "linear" -> Linear(c, mesh, tau)
      [] interp = "cubic" -> P64(c, tau)
      [] interp = "first" -> P64(c, 4 * mesh[1])          \* a user's function: the first value everywhere
Inside(mesh, tau) == \E i, j \in DOMAIN mesh : 4 * mesh[i] <= tau /\ tau <= 4 * mesh[j]

(* The object: mesh, and for each of y, q, u the polynomials of its columns and *)
(* whether a single column is stored as a vector ("vec").                      *)
Blank == [mesh |-> << >>, y |-> << >>, q |-> << >>, u |-> << >>, vec |-> FALSE, interp |-> "linear"]
Part(o, part) == o[part]
(* Result of evaluating a part at times ts (scalar: a single time): shape, values. *)
Shape(o, part, ts, scalar) ==
    LET d == Len(Part(o, part)) m == Len(ts) IN
    CASE o.mesh = << >> \/ d = 0 -> << 0 >>
      [] scalar -> << d >>
      [] d = 1 -> << m >>
      [] OTHER -> << m, d >>
Values(o, part, ts) ==
    LET cs == Part(o, part) IN
    IF o.mesh = << >> \/ cs = << >> THEN << >>
    ELSE [k \in 1 .. Len(ts) * Len(cs) |->
            Value(o.interp, cs[1 + ((k - 1) % Len(cs))], o.mesh, ts[1 + ((k - 1) \div Len(cs))])]
Fails(o, ts) == o.mesh # << >> /\ o.interp # "first" /\ \E i \in DOMAIN ts : ~Inside(o.mesh, ts[i])
(* Row i (0-based, negative from the end) of a part. *)
Row(o, part, i) == LET k == IF i < 0 THEN Len(o.mesh) + i + 1 ELSE i + 1
                   IN  [j \in DOMAIN Part(o, part) |-> Data(Part(o, part)[j], o.mesh)[k]]
=============================================================================
