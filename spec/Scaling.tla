------------------------------- MODULE Scaling -------------------------------
(* Automatic scaling.  A unit is a vector of integer exponents over the base   *)
(* units << m, s, kg >>.  Each base unit is given a size by the user: a        *)
(* monomial in the magnitudes (largest absolute value along the guess) of the  *)
(* internal problem's variables and constants.  All sizes here are powers of   *)
(* two, so that a factor is an integer exponent.                               *)
(*                                                                             *)
(* The problem: x' = v, v' = F / M - D v, cost  Q (x - xf)^2 at the end plus   *)
(* the integral of W F^2 (plus activators, under inequality constraints);      *)
(* x, t, M and the cost have arbitrary units, the others follow.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Z3 == << 0, 0, 0 >>
Add(a, b) == [i \in 1 .. 3 |-> a[i] + b[i]]
Sub(a, b) == [i \in 1 .. 3 |-> a[i] - b[i]]
Mul(n, a) == [i \in 1 .. 3 |-> n * a[i]]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]

(* cfg: [x, t, M, c: units; method: "traditional" / "diffyg"; control:         *)
(*       "differential" / "algebraic"; ineq: "none" / "utm" / "epstrig";       *)
(*       red: whether the symmetry x is reduced (x becomes a quadrature, its   *)
(*            costate an unknown constant);                                    *)
(*       refs: << size of m, size of s, size of kg >>, each a record           *)
(*             [text, pow: function from variable name to exponent]            *)
UnitOf(cfg) ==
    LET F == Sub(Add(cfg.M, cfg.x), Mul(2, cfg.t))
        v == Sub(cfg.x, cfg.t)
    IN [x |-> cfg.x, v |-> v, t |-> cfg.t, F |-> F,
        M |-> cfg.M, D |-> Mul(-1, cfg.t), xf |-> cfg.x, tf |-> cfg.t,
        Q |-> Sub(cfg.c, Mul(2, cfg.x)), W |-> Sub(Sub(cfg.c, cfg.t), Mul(2, F)),
        eps |-> Sub(cfg.c, cfg.t), vmax |-> v, Fmax |-> F]
Declared == {"x", "v", "t", "F", "M", "D", "xf", "tf", "Q", "W", "eps", "vmax", "Fmax"}
Consts == << "M", "D", "xf", "tf", "Q", "W", "eps", "vmax", "Fmax" >>

(* Units of everything in the internal boundary value problem. *)
Internal(cfg) ==
    LET u == UnitOf(cfg)
        ctl == IF cfg.ineq = "epstrig" THEN "_F_trig" ELSE "F"
        uctl == IF cfg.ineq = "epstrig" THEN Z3 ELSE u.F
        st == << << "x", u.x >>, << "v", u.v >>, << "t", u.t >> >>
        co(s) == [i \in DOMAIN s |-> << "_lam_" \o s[i][1], Sub(cfg.c, s[i][2]) >>]
        all == CASE cfg.control = "algebraic" -> st \o co(st)
                    [] cfg.method = "traditional" -> st \o << << ctl, uctl >> >> \o co(st)
                    [] OTHER -> LET e == st \o << << ctl, uctl >> >> IN e \o co(e)
        keep(v) == v[1] \notin {"x", "_lam_x"}
        states == IF cfg.red THEN SelectSeq(all, keep) ELSE all
        psi0 == << u.x, u.v, u.t >>
        psif == << u.v, u.t >>
    IN [states |-> states,
        controls |-> IF cfg.control = "algebraic" THEN << << ctl, uctl >> >> ELSE << >>,
        quads |-> IF cfg.red THEN << u.x >> ELSE << >>,
        params |-> IF cfg.red THEN << u.t, Sub(cfg.c, u.x) >> ELSE << u.t >>,
        mult |-> [i \in 1 .. 3 |-> Sub(cfg.c, psi0[i])] \o [i \in 1 .. 2 |-> Sub(cfg.c, psif[i])],
        consts |-> [i \in DOMAIN Consts |-> << Consts[i], u[Consts[i]] >>]]

(* Size (exponent of two) of a monomial, given the magnitudes mag.             *)
Size(ref, mag) == LET RECURSIVE sum(_)
                      sum(S) == IF S = {} THEN 0
                                ELSE LET n == CHOOSE n \in S : TRUE IN ref.pow[n] * mag[n] + sum(S \ {n})
                  IN  ref.base + sum(DOMAIN ref.pow)
Sizes(cfg, mag) == [i \in 1 .. 3 |-> Size(cfg.refs[i], mag)]
(* The factor of something with unit u. *)
Factor(u, sizes) == Dot(u, sizes)
(* Factors of all columns. *)
Factors(cfg, mag) ==
    LET z == Sizes(cfg, mag)
        I == Internal(cfg)
    IN [t |-> 0,
        y |-> [i \in DOMAIN I.states |-> Factor(I.states[i][2], z)],
        u |-> [i \in DOMAIN I.controls |-> Factor(I.controls[i][2], z)],
        q |-> [i \in DOMAIN I.quads |-> Factor(I.quads[i], z)],
        p |-> [i \in DOMAIN I.params |-> Factor(I.params[i], z)],
        m |-> [i \in DOMAIN I.mult |-> Factor(I.mult[i], z)],
        k |-> [i \in DOMAIN I.consts |-> Factor(I.consts[i][2], z)]]

-----------------------------------------------------------------------------
(* One case of a run: the guess (magnitudes in the user's units) with the      *)
(* constants of the case is divided by the factors, solved, and the solution   *)
(* multiplied by the same factors.  The solver changes magnitudes by move      *)
(* (name -> exponent); a problem that means the same in all units lets it do   *)
(* so in any units alike.                                                      *)
Names(I) == {I.states[i][1] : i \in DOMAIN I.states}
UnitIn(cfg, n) == LET I == Internal(cfg) IN
    IF n = "x" /\ cfg.red THEN I.quads[1]
    ELSE IF \E i \in DOMAIN I.states : I.states[i][1] = n
    THEN I.states[CHOOSE i \in DOMAIN I.states : I.states[i][1] = n][2]
    ELSE I.consts[CHOOSE i \in DOMAIN I.consts : I.consts[i][1] = n][2]
Hand(cfg, mag) == [n \in DOMAIN mag |-> mag[n] - Factor(UnitIn(cfg, n), Sizes(cfg, mag))]
Solved(mag, move) == [n \in DOMAIN mag |-> mag[n] + (IF n \in DOMAIN move THEN move[n] ELSE 0)]
TakeBack(cfg, before, mag) == [n \in DOMAIN mag |-> mag[n] + Factor(UnitIn(cfg, n), Sizes(cfg, before))]
(* Terms that are added together have the same unit. *)
Consistent(cfg) ==
    LET u == UnitOf(cfg) IN
    /\ u.v = Sub(u.x, u.t)
    /\ Sub(u.v, u.t) = Sub(u.F, u.M) /\ Sub(u.v, u.t) = Add(u.D, u.v)
    /\ Add(u.W, Mul(2, u.F)) = Sub(cfg.c, u.t)
    /\ Add(u.Q, Mul(2, u.x)) = cfg.c
=============================================================================
