----------------------------- MODULE GuessTrace ------------------------------
(* Checks recorded histories of a guess generator.  Events:                     *)
(*  scn                                                                        *)
(*  setup    gen: settings, out: exception                                     *)
(*  generate prob, helper, out; y0, yf: first and last row, by name (1e-6),    *)
(*           n, unit: mesh runs from 0 to 1 strictly; dur (1e-6);              *)
(*           x, u, lam, t, lt: largest deviation along the mesh (1e-9);        *)
(*           const: constants by name (1e-6), given: those of the problem (or  *)
(*           of the user's guess);  same: user's guess not modified            *)
EXTENDS Guess, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, gen
E == Trace[l]
Report(i, S) == \A c \in S : PrintT(<< "BAD", i, c >>)
If(b, c) == IF b THEN {} ELSE {c}
Micro(f) == IF Abs(f[1]) > 2000 THEN 1000 * ((1000 * f[1]) \div f[2]) ELSE (1000000 * f[1]) \div f[2]
Near(v, f, tol) == Abs(v - Micro(f)) <= tol
XN(p) == IF p.type = "energy" THEN << "x", "v" >> ELSE << "x" >>
UN(p) == IF p.type = "two" THEN << "u", "r" >> ELSE << "u" >>
Scn == E.ev = "scn" /\ gen' = [mode |-> "none"]
Setup ==
    /\ E.ev = "setup"
    /\ IF Refused(E.gen) THEN gen' = gen /\ Report(l, If(E.out = "ValueError", "C24.refusal"))
       ELSE gen' = E.gen /\ Report(l, If(E.out = "", "C24.setup"))
(* Constants called after an end value of a state or of time, when asked. *)
Helped(p, r, n) ==
    CASE n = "t_0" -> << TRUE, Begin(gen) >>
      [] n = "t_f" -> << TRUE, Plus(Begin(gen), Duration(gen)) >>
      [] n = "x_0" -> << TRUE, At(r.x[1], F(0)) >>
      [] n = "x_f" -> << TRUE, At(r.x[1], Duration(gen)) >>
      [] n = "v_0" /\ p.type = "energy" -> << TRUE, At(r.x[2], F(0)) >>
      [] n = "v_f" /\ p.type = "energy" -> << TRUE, At(r.x[2], Duration(gen)) >>
      [] OTHER -> << FALSE >>
Generate ==
    /\ E.ev = "generate" /\ UNCHANGED gen
    /\ LET p == E.prob  r == Generated(p, gen)  T == Duration(gen)
           tol == 2000
           (* away from the stationary control, the geometric method's costate of time is not the classical one *)
           skip == E.method = "diffyg" /\ p.control = "differential" /\ gen.mode = "auto"
           ends(row, at) ==
              /\ \A i \in DOMAIN r.x : Near(row[XN(p)[i]], At(r.x[i], at), tol)
              /\ Near(row["t"], At(Clock(gen), at), tol)
              /\ \A i \in DOMAIN r.u : Near(row[UN(p)[i]], At(r.u[i], at), tol)
              /\ \A i \in DOMAIN r.lam : Near(row["_lam_" \o XN(p)[i]], At(r.lam[i], at), tol)
              /\ skip \/ Near(row["_lam_t"], At(r.lt, at), tol)
       IN Report(l, IF E.out # "" THEN {"C24.error"} ELSE
             If(E.unit, "C24.mesh")
             \cup If(gen.mode # "ones" \/ E.n = 4, "C24.points of a constant guess")
             \cup If(Near(E.dur, T, 2), "C24.duration")
             \cup If(ends(E.y0, F(0)), "C24.start")
             \cup If(ends(E.yf, T), "C24.end")
             \cup If(E.x <= 100000 /\ E.t <= 100000, "C24.states")
             \cup If(E.u <= 100000, "C24.controls")
             \cup If(E.lam <= 100000 /\ (skip \/ E.lt <= 100000), "C24.costates")
             \cup If(/\ DOMAIN E.const = DOMAIN E.given
                     /\ \A n \in DOMAIN E.const :
                          LET h == Helped(p, r, n) IN
                          IF E.helper /\ h[1] THEN Near(E.const[n], h[2], tol) ELSE E.const[n] = E.given[n], "C24.constants")
             \cup If(E.same, "C24.user's guess modified"))
TInit == l = 1 /\ gen = [mode |-> "none"]
TNext == l <= Len(Trace) /\ (Scn \/ Setup \/ Generate) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<< l, gen >>
Consumed == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1 >>)
=============================================================================
