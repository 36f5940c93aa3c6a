------------------------------ MODULE Indirect ------------------------------
(* From an optimal control problem to the boundary value problem of its        *)
(* first-order necessary conditions.                                           *)
(*                                                                             *)
(* A problem is a record                                                       *)
(*   ind       name of the independent variable                                *)
(*   states    << [n, f] >>          dynamics dx/dt = f                        *)
(*   controls  << name >>                                                      *)
(*   consts    << [n, ...] >>                                                  *)
(*   quants    << [n, e] >>          abbreviations                             *)
(*   switches  << [n, fns, conds, tol] >>   staged functions                   *)
(*   L, Phi0, Phif                   path, initial, terminal cost              *)
(*   psi0, psif << e >>              boundary constraints e = 0                *)
(*   ineq      << [loc, e, lo, hi, act, m] >>  lo <= e <= hi, method m         *)
(* Configuration: [method |-> "traditional"|"diffyg",                          *)
(*                 control |-> "differential"|"algebraic"]                     *)
(*   and possibly reduce |-> << state >>: states nothing depends on but the    *)
(*   boundary terms, whose momentum becomes an unknown constant and which      *)
(*   themselves become quadratures                                             *)
(* The steps below may be taken in any order allowed by Ready; Final is the    *)
(* boundary value problem.                                                     *)
EXTENDS Expr, SequencesExt

Names(s) == [i \in DOMAIN s |-> s[i].n]
RangeOf(s) == {s[i] : i \in DOMAIN s}

(* Apply an expression transformer to every expression of the problem. *)
MapExprs(p, F(_)) ==
    [p EXCEPT !.states = [i \in DOMAIN @ |-> [@[i] EXCEPT !.f = F(@)]],
              !.quants = [i \in DOMAIN @ |-> [@[i] EXCEPT !.e = F(@)]],
              !.switches = [i \in DOMAIN @ |-> [@[i] EXCEPT !.fns = [j \in DOMAIN @ |-> F(@[j])],
                                                            !.conds = [j \in DOMAIN @ |-> [k \in DOMAIN @[j] |-> F(@[j][k])]]]],
              !.L = F(@), !.Phi0 = F(@), !.Phif = F(@),
              !.psi0 = [i \in DOMAIN @ |-> F(@[i])],
              !.psif = [i \in DOMAIN @ |-> F(@[i])],
              !.ineq = [i \in DOMAIN @ |-> [@[i] EXCEPT !.e = F(@), !.lo = F(@), !.hi = F(@)]]]

Replace(p, x, e) == LET f == x :> e IN MapExprs(p, LAMBDA t : Subst(t, f))

-----------------------------------------------------------------------------
(* Quantity i is spelled out everywhere, the other quantities included. *)
SpellQuantity(p, i) ==
    LET q == p.quants[i]
        rest == RemoveAt(p.quants, i)
    IN  Replace([p EXCEPT !.quants = rest], q.n, q.e)

(* Switch i becomes its smooth approximation: each function weighted by the    *)
(* sigmoids of its conditions (condition < 0: on).                             *)
Sigmoid(c, tol) == Div(One, Add(One, Exp(Div(c, Var(tol)))))
SwitchExpr(s) == Sum([j \in DOMAIN s.fns |->
                        Mul(Sum([k \in DOMAIN s.conds[j] |-> Sigmoid(s.conds[j][k], s.tol)]), s.fns[j])])
SpellSwitch(p, i) ==
    LET s == p.switches[i]
        rest == RemoveAt(p.switches, i)
    IN  Replace([p EXCEPT !.switches = rest], s.n, SwitchExpr(s))

(* Time becomes a state. *)
TimeAsState(p) == [p EXCEPT !.states = Append(@, [n |-> p.ind, f |-> One])]

(* Penalty of a two-sided inequality: infinite at the bounds, 0 in the middle. *)
Penalty(c) ==
    LET arg == Div(Mul(Pi, Sub(Sub(Mul(Num(2), c.e), c.hi), c.lo)), Mul(Num(2), Sub(c.hi, c.lo)))
    IN  Mul(Var(c.act), Sub(Div(One, Cos(arg)), One))
TrigName(u) == "_" \o u \o "_trig"
TrigBound(c, u) == Add(Div(Mul(Sub(c.hi, c.lo), Sin(Var(TrigName(u)))), Num(2)), Div(Add(c.hi, c.lo), Num(2)))

(* Inequality i is consumed. *)
ConsumeInequality(p, i) ==
    LET c == p.ineq[i]
        q == [p EXCEPT !.ineq = RemoveAt(@, i)]
    IN  IF c.m = "utm" THEN
            CASE c.loc = "initial"  -> [q EXCEPT !.Phi0 = Add(@, Penalty(c))]
              [] c.loc = "path"     -> [q EXCEPT !.L = Add(@, Penalty(c))]
              [] c.loc = "terminal" -> [q EXCEPT !.Phif = Add(@, Penalty(c))]
        ELSE LET u == c.e[2]
                 r == Replace(q, u, TrigBound(c, u))
             IN  [r EXCEPT !.controls = [k \in DOMAIN @ |-> IF @[k] = u THEN TrigName(u) ELSE @[k]],
                           !.L = Sub(@, Mul(Var(c.act), Cos(Var(TrigName(u)))))]

-----------------------------------------------------------------------------
(* The necessary conditions of a problem without quantities, switches and      *)
(* inequalities, time being its last state.                                    *)
Lam(x) == "_lam_" \o x
Dot(u) == "dot:" \o u
Nu0(i) == "_nu_0_" \o ToString(i - 1)
NuF(i) == "_nu_f_" \o ToString(i - 1)
Delta(p) == "_delta_" \o p.ind

Ham(p) == Add(p.L, Sum([i \in DOMAIN p.states |-> Mul(Var(Lam(p.states[i].n)), p.states[i].f)]))
AugInitial(p)  == Add(p.Phi0, Sum([i \in DOMAIN p.psi0 |-> Mul(Var(Nu0(i)), p.psi0[i])]))
AugTerminal(p) == Add(p.Phif, Sum([i \in DOMAIN p.psif |-> Mul(Var(NuF(i)), p.psif[i])]))

(* The rate of each control is fixed implicitly by d(H_u)/dt = 0. *)
ControlLaw(p, H, k) ==
    LET hu == D(H, p.controls[k]) IN
    Add(Sum([j \in DOMAIN p.controls |-> Mul(D(hu, p.controls[j]), Var(Dot(p.controls[j])))]),
        Add(Sum([i \in DOMAIN p.states |-> Mul(D(hu, p.states[i].n), p.states[i].f)]),
            Sum([i \in DOMAIN p.states |-> Mul(D(hu, Lam(p.states[i].n)), Neg(D(H, p.states[i].n)))])))

Item(name, e) == [name |-> name, e |-> e]

HuDot(p, H) == Sum([k \in DOMAIN p.controls |-> Mul(D(H, p.controls[k]), Var(Dot(p.controls[k])))])

(* Rates with respect to the original time. *)
Rates(p, cfg) ==
    LET H == Ham(p)
        geo == cfg.method = "diffyg" /\ cfg.control = "differential"
        costate(i) == LET base == Neg(D(H, p.states[i].n)) IN
                      IF geo /\ p.states[i].n = p.ind THEN Sub(base, HuDot(p, H)) ELSE base
    IN  [i \in DOMAIN p.states |-> Item(p.states[i].n, p.states[i].f)]
        \o [i \in DOMAIN p.states |-> Item(Lam(p.states[i].n), costate(i))]
        \o (IF cfg.control = "differential"
            THEN [k \in DOMAIN p.controls |-> Item(p.controls[k], Var(Dot(p.controls[k])))] ELSE << >>)
        \o (IF geo THEN [k \in DOMAIN p.controls |-> Item(Lam(p.controls[k]), Neg(D(H, p.controls[k])))] ELSE << >>)

(* With the independent variable stretched to [0, 1] by the unknown duration. *)
StretchedRates(p, cfg) ==
    LET r == Rates(p, cfg) IN [i \in DOMAIN r |-> [r[i] EXCEPT !.e = Mul(Var(Delta(p)), @)]]

Laws(p, cfg) ==
    LET H == Ham(p) IN
    IF cfg.control = "differential"
    THEN [k \in DOMAIN p.controls |-> Item("law " \o p.controls[k], ControlLaw(p, H, k))]
    ELSE [k \in DOMAIN p.controls |-> Item("law " \o p.controls[k], D(H, p.controls[k]))]

InitialBCs(p, cfg) ==
    LET A == AugInitial(p) IN
    [i \in DOMAIN p.psi0 |-> Item("psi0 " \o ToString(i), p.psi0[i])]
    \o [i \in DOMAIN p.states |-> Item("trans0 " \o p.states[i].n, Add(Var(Lam(p.states[i].n)), D(A, p.states[i].n)))]
    \o (IF cfg.method = "diffyg" /\ cfg.control = "differential"
        THEN [k \in DOMAIN p.controls |-> Item("colam0 " \o p.controls[k], Var(Lam(p.controls[k])))] ELSE << >>)

TerminalBCs(p, cfg) ==
    LET A == AugTerminal(p)
        H == Ham(p)
    IN  [i \in DOMAIN p.psif |-> Item("psif " \o ToString(i), p.psif[i])]
        \o [i \in DOMAIN p.states |-> Item("transf " \o p.states[i].n, Sub(Var(Lam(p.states[i].n)), D(A, p.states[i].n)))]
        \o << Item("ham", H) >>
        \o (IF cfg.control = "differential"
            THEN [k \in DOMAIN p.controls |-> Item("stat " \o p.controls[k], D(H, p.controls[k]))] ELSE << >>)

BVP(p, cfg) ==
    [quads |-> << >>, rates |-> StretchedRates(p, cfg), laws |-> Laws(p, cfg), bc0 |-> InitialBCs(p, cfg), bcf |-> TerminalBCs(p, cfg),
     ham |-> Ham(p), controls |-> p.controls, delta |-> Delta(p),
     params |-> << Delta(p) >>,
     nus |-> [i \in DOMAIN p.psi0 |-> Nu0(i)] \o [i \in DOMAIN p.psif |-> NuF(i)],
     cost |-> [L |-> p.L, Phi0 |-> p.Phi0, Phif |-> p.Phif]]

-----------------------------------------------------------------------------
(* Reduction by translations: state x and its costate leave the unknowns.      *)
Cyc(cfg) == IF "reduce" \in DOMAIN cfg THEN cfg.reduce ELSE << >>
QName(x) == "q:" \o x
PName(x) == "com:" \o x
Cyclic(p, x) == /\ x \in {p.states[i].n : i \in DOMAIN p.states}
                /\ x \notin Free(p.L) /\ \A i \in DOMAIN p.states : x \notin Free(p.states[i].f)
ReducedOut(cyc) == RangeOf(cyc) \cup {Lam(cyc[i]) : i \in DOMAIN cyc}
ReduceSub(cyc) == [v \in ReducedOut(cyc) |-> IF v \in RangeOf(cyc) THEN Var(QName(v))
                                             ELSE Var(PName(CHOOSE x \in RangeOf(cyc) : Lam(x) = v))]
ReduceBVP(b, cyc) ==
    LET f == ReduceSub(cyc)
        Sb(s) == [i \in DOMAIN s |-> [s[i] EXCEPT !.e = Subst(@, f)]]
        all == Sb(b.rates)
    IN  [b EXCEPT !.rates = SelectSeq(all, LAMBDA r : r.name \notin ReducedOut(cyc)),
                  !.quads = [i \in DOMAIN cyc |-> all[CHOOSE j \in DOMAIN all : all[j].name = cyc[i]]],
                  !.laws = Sb(@), !.bc0 = Sb(@), !.bcf = Sb(@), !.ham = Subst(@, f),
                  !.params = @ \o [i \in DOMAIN cyc |-> PName(cyc[i])],
                  !.cost = [k \in DOMAIN @ |-> Subst(@[k], f)]]

(* The names of what must be found in the boundary value problem. *)
ItemNames(b) == {"quad " \o b.quads[i].name : i \in DOMAIN b.quads} \cup RangeOf([i \in DOMAIN b.rates |-> "rate " \o b.rates[i].name]) \cup RangeOf([i \in DOMAIN b.laws |-> b.laws[i].name])
                \cup RangeOf([i \in DOMAIN b.bc0 |-> b.bc0[i].name]) \cup RangeOf([i \in DOMAIN b.bcf |-> b.bcf[i].name])

-----------------------------------------------------------------------------
(* Trajectories.  A trajectory of the original problem has columns for time,   *)
(* states, controls, costates and the costate of time; one of the boundary     *)
(* value problem has its columns by name over the stretched time.              *)
(* p0 is the original problem without abbreviations, p the derived one.        *)
Trig(p0, u) == \E i \in DOMAIN p0.ineq : p0.ineq[i].m = "epstrig" /\ p0.ineq[i].e = Var(u)
TrigOf(p0, u) == p0.ineq[CHOOSE i \in DOMAIN p0.ineq : p0.ineq[i].m = "epstrig" /\ p0.ineq[i].e = Var(u)]

NewControl(p0, u) == IF Trig(p0, u) THEN TrigName(u) ELSE u
ToNewControl(p0, u) ==
    IF Trig(p0, u) THEN LET c == TrigOf(p0, u) IN Asin(Div(Sub(Sub(Mul(Num(2), Var(u)), c.hi), c.lo), Sub(c.hi, c.lo)))
    ELSE Var(u)
(* Known deviation of the code (finding "half angle"): the guess is mapped with half the sine of its angle. *)
HalfAngle(p0, u) == LET c == TrigOf(p0, u) IN Asin(Div(Sub(Sub(Mul(Num(2), Var(u)), c.hi), c.lo), Mul(Num(2), Sub(c.hi, c.lo))))
HalfRound(p0, u) == LET c == TrigOf(p0, u) IN Div(Add(Add(Mul(Num(2), Var(u)), c.hi), c.lo), Num(4))
Deviations(p0, cfg) ==
    IF cfg.control = "algebraic" THEN << >>
    ELSE LET us == SelectSeq(p0.controls, LAMBDA u : Trig(p0, u)) IN
         [k \in DOMAIN us |-> Item("fwd " \o TrigName(us[k]), HalfAngle(p0, us[k]))]
         \o [k \in DOMAIN us |-> Item("round " \o us[k], HalfRound(p0, us[k]))]
FromNewControl(p0, u) == IF Trig(p0, u) THEN TrigBound(TrigOf(p0, u), u) ELSE Var(u)

(* Column of the boundary value problem <- columns of the original one. *)
FullForward(p0, cfg) ==
    [i \in DOMAIN p0.states |-> Item(p0.states[i].n, Var(p0.states[i].n))]
    \o << Item(p0.ind, Var(p0.ind)) >>
    \o [i \in DOMAIN p0.states |-> Item(Lam(p0.states[i].n), Var(Lam(p0.states[i].n)))]
    \o << Item(Lam(p0.ind), Var(Lam(p0.ind))) >>
    \o (IF cfg.control = "differential"
        THEN [k \in DOMAIN p0.controls |-> Item(NewControl(p0, p0.controls[k]), ToNewControl(p0, p0.controls[k]))] ELSE << >>)
    \o (IF cfg.control = "differential" /\ cfg.method = "diffyg"
        THEN [k \in DOMAIN p0.controls |-> Item(Lam(NewControl(p0, p0.controls[k])), Zero)] ELSE << >>)
Forward(p0, cfg) ==
    SelectSeq(FullForward(p0, cfg), LAMBDA r : r.name \notin ReducedOut(Cyc(cfg)))
    \o [i \in DOMAIN Cyc(cfg) |-> Item(QName(Cyc(cfg)[i]), Var(Cyc(cfg)[i]))]
    \o [i \in DOMAIN Cyc(cfg) |-> Item(PName(Cyc(cfg)[i]), Var(Lam(Cyc(cfg)[i])))]

(* And back. *)
FullBackward(p0, cfg) ==
    [i \in DOMAIN p0.states |-> Item(p0.states[i].n, Var(p0.states[i].n))]
    \o << Item(p0.ind, Var(p0.ind)) >>
    \o [i \in DOMAIN p0.states |-> Item(Lam(p0.states[i].n), Var(Lam(p0.states[i].n)))]
    \o << Item(Lam(p0.ind), Var(Lam(p0.ind))) >>
    \o (IF cfg.control = "differential"
        THEN [k \in DOMAIN p0.controls |-> Item(p0.controls[k], FromNewControl(p0, p0.controls[k]))] ELSE << >>)
Backward(p0, cfg) == LET b == FullBackward(p0, cfg) IN [i \in DOMAIN b |-> [b[i] EXCEPT !.e = Subst(@, ReduceSub(Cyc(cfg)))]]

MapNames(p0, cfg) ==
    {"fwd " \o Forward(p0, cfg)[i].name : i \in DOMAIN Forward(p0, cfg)}
    \cup {"back " \o Backward(p0, cfg)[i].name : i \in DOMAIN Backward(p0, cfg)}
    \cup {"round " \o Backward(p0, cfg)[i].name : i \in DOMAIN Backward(p0, cfg)}
    \cup {"stretch", "duration", "constants", "parameters", "cost", "control"}

-----------------------------------------------------------------------------
(* The whole derivation in one particular order. *)
RECURSIVE Derive(_)
Derive(p) ==
    IF p.quants # << >> THEN Derive(SpellQuantity(p, 1))
    ELSE IF p.ineq # << >> THEN Derive(ConsumeInequality(p, 1))
    ELSE IF p.switches # << >> THEN Derive(SpellSwitch(p, 1))
    ELSE p
RECURSIVE Spelled(_)
Spelled(p) == IF p.quants # << >> THEN Spelled(SpellQuantity(p, 1))
              ELSE IF p.switches # << >> THEN Spelled(SpellSwitch(p, 1)) ELSE p
FinalBVP(p, cfg) == ReduceBVP(BVP(TimeAsState(Derive(p)), cfg), Cyc(cfg))
=============================================================================
