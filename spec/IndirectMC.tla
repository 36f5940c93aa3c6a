----------------------------- MODULE IndirectMC -----------------------------
(* Every derivation order of every problem of a list (a JSON file), with the   *)
(* laws the resulting boundary value problem obeys.  The boundary value        *)
(* problems are written out for the conformance check.                         *)
EXTENDS Indirect, Json, IOUtils

Problems == JsonDeserialize(IOEnv.PROBLEMS)
OutDir   == IOEnv.OUTDIR
Emit     == IOEnv.OUTDIR # ""

VARIABLES pid, pr, timed, phase
vars == << pid, pr, timed, phase >>

P0 == Problems[pid]
Cfg == P0.cfg

Init == /\ pid \in DOMAIN Problems
        /\ pr = Problems[pid].p
        /\ timed = FALSE
        /\ phase = "derive"

Spell == /\ phase = "derive" /\ \E i \in DOMAIN pr.quants : pr' = SpellQuantity(pr, i)
         /\ UNCHANGED << pid, timed, phase >>
Clock == /\ phase = "derive" /\ ~timed /\ pr' = TimeAsState(pr) /\ timed' = TRUE
         /\ UNCHANGED << pid, phase >>
Consume == /\ phase = "derive" /\ pr.quants = << >> /\ \E i \in DOMAIN pr.ineq : pr' = ConsumeInequality(pr, i)
           /\ UNCHANGED << pid, timed, phase >>
Stage == /\ phase = "derive" /\ pr.quants = << >> /\ \E i \in DOMAIN pr.switches : pr' = SpellSwitch(pr, i)
         /\ UNCHANGED << pid, timed, phase >>
Finish == /\ phase = "derive" /\ timed /\ pr.quants = << >> /\ pr.ineq = << >> /\ pr.switches = << >>
          /\ phase' = "done"
          /\ IF Emit THEN JsonSerialize(OutDir \o "/" \o ToString(pid) \o ".json",
                                        [id |-> pid, bvp |-> FinalBVP(P0.p, Cfg), fwd |-> Forward(Spelled(P0.p), Cfg),
                                         back |-> Backward(Spelled(P0.p), Cfg), dev |-> Deviations(Spelled(P0.p), Cfg)]) ELSE TRUE
          /\ UNCHANGED << pid, pr, timed >>

Next == Spell \/ Clock \/ Consume \/ Stage \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Random points: a fixed pseudo-random value for each name. *)
Hash(s, k) == LET n == Len(s) IN ((n * 7919 + k * 104729 + 17) % P)
Point(S, k) == LET order == SetToSeq(S) IN
               [x \in S |-> (((CHOOSE i \in DOMAIN order : order[i] = x) * 3571 + k * 1237) % 9973) + 2]

(* Meaning of the original expressions: abbreviations and staged functions     *)
(* stand for their definitions, bounded controls for the trigonometric form.   *)
RECURSIVE Meaning(_, _, _)
Meaning(p, e, env) ==
    CASE e[1] \in {"n", "pi"} -> Eval(e, env)
      [] e[1] = "v" ->
          IF \E i \in DOMAIN p.quants : p.quants[i].n = e[2]
          THEN Meaning(p, p.quants[CHOOSE i \in DOMAIN p.quants : p.quants[i].n = e[2]].e, env)
          ELSE IF \E i \in DOMAIN p.switches : p.switches[i].n = e[2]
          THEN Meaning(p, SwitchExpr(p.switches[CHOOSE i \in DOMAIN p.switches : p.switches[i].n = e[2]]), env)
          ELSE IF \E i \in DOMAIN p.ineq : p.ineq[i].m = "epstrig" /\ p.ineq[i].e[2] = e[2]
          THEN LET c == p.ineq[CHOOSE i \in DOMAIN p.ineq : p.ineq[i].m = "epstrig" /\ p.ineq[i].e[2] = e[2]]
               IN  Meaning(p, TrigBound(c, e[2]), env)
          ELSE env[e[2]]
      [] e[1] = "+" -> (Meaning(p, e[2], env) + Meaning(p, e[3], env)) % P
      [] e[1] = "*" -> (Meaning(p, e[2], env) * Meaning(p, e[3], env)) % P
      [] e[1] = "/" -> (Meaning(p, e[2], env) * Inv(Meaning(p, e[3], env))) % P
      [] e[1] = "^" -> PowMod(Meaning(p, e[2], env), e[3])
      [] e[1] = "call" -> FnCall(e[2], e[3], [i \in DOMAIN e[4] |-> Meaning(p, e[4][i], env)])
      [] OTHER -> Eval(<< e[1], Num(Meaning(p, e[2], env)) >>, env)

AllVars == LET f == P0.p IN {f.states[i].n : i \in DOMAIN f.states} \cup {f.ind} \cup {f.consts[i].n : i \in DOMAIN f.consts}
           \cup RangeOf(f.controls) \cup {TrigName(f.controls[i]) : i \in DOMAIN f.controls}
Env == Point(AllVars, 5)

PenaltyMeaning(loc) ==
    LET p == P0.p
        S == {i \in DOMAIN p.ineq : p.ineq[i].loc = loc /\ p.ineq[i].m = "utm"}
        T == {i \in DOMAIN p.ineq : loc = "path" /\ p.ineq[i].m = "epstrig"}
        RECURSIVE Tot(_)
        Tot(R) == IF R = {} THEN 0
                  ELSE LET i == CHOOSE i \in R : TRUE
                           c == p.ineq[i]
                           v == IF i \in S THEN Meaning(p, Penalty(c), Env)
                                ELSE Eval(Neg(Mul(Var(c.act), Cos(Var(TrigName(c.e[2]))))), Env)
                       IN  (v + Tot(R \ {i})) % P
    IN  Tot(S \cup T)

(* Whatever the order, the result means the same. *)
OrderIrrelevant ==
    phase = "done" =>
        /\ \A i \in DOMAIN P0.p.states : Eval(pr.states[i].f, Env) = Meaning(P0.p, P0.p.states[i].f, Env)
        /\ Eval(pr.L, Env) = (Meaning(P0.p, P0.p.L, Env) + PenaltyMeaning("path")) % P
        /\ Eval(pr.Phi0, Env) = (Meaning(P0.p, P0.p.Phi0, Env) + PenaltyMeaning("initial")) % P
        /\ Eval(pr.Phif, Env) = (Meaning(P0.p, P0.p.Phif, Env) + PenaltyMeaning("terminal")) % P
        /\ \A i \in DOMAIN P0.p.psi0 : Eval(pr.psi0[i], Env) = Meaning(P0.p, P0.p.psi0[i], Env)
        /\ \A i \in DOMAIN P0.p.psif : Eval(pr.psif[i], Env) = Meaning(P0.p, P0.p.psif[i], Env)

(* Nothing but states, controls, constants and time is left. *)
Closed ==
    phase = "done" =>
        LET ok == {pr.states[i].n : i \in DOMAIN pr.states} \cup RangeOf(pr.controls) \cup {pr.consts[i].n : i \in DOMAIN pr.consts}
        IN  /\ \A i \in DOMAIN pr.states : Free(pr.states[i].f) \subseteq ok
            /\ Free(pr.L) \subseteq ok /\ Free(pr.Phi0) \subseteq ok /\ Free(pr.Phif) \subseteq ok
            /\ pr.states[Len(pr.states)].n \in {P0.p.ind} \cup {P0.p.states[i].n : i \in DOMAIN P0.p.states}

(* Time is the last state by convention below. *)
Timed(p) == LET i == CHOOSE i \in DOMAIN p.states : p.states[i].n = p.ind
            IN  [p EXCEPT !.states = Append(RemoveAt(@, i), @[i])]

Laws2 ==
    phase = "done" =>
        LET p == Timed(pr)
            b == BVP(p, Cfg)
            H == Ham(p)
            S == UNION {Free(b.rates[i].e) : i \in DOMAIN b.rates} \cup Free(H) \cup RangeOf(p.controls)
                 \cup {Dot(p.controls[k]) : k \in DOMAIN p.controls}
                 \cup {p.states[i].n : i \in DOMAIN p.states} \cup {Lam(p.states[i].n) : i \in DOMAIN p.states}
            env == Point(S, 11)
            r == Rates(p, Cfg)
            RECURSIVE DH(_)
            DH(i) == IF i = 0 THEN 0 ELSE (DH(i - 1) + Eval(Mul(D(H, r[i].name), r[i].e), env)) % P
            unknowns == Len(b.rates) + Len(b.params) + Len(b.nus)
            hud == Eval(HuDot(p, H), env)
        IN  /\ Len(b.bc0) + Len(b.bcf) = unknowns                       \* a square problem
            \* the Hamiltonian changes only through its dependence on the controls (not at all when H_u = 0)
            /\ Cfg.control = "differential" =>
                  DH(Len(r)) = (IF Cfg.method = "diffyg" THEN 0 ELSE hud)
            /\ Cfg.control = "algebraic" => DH(Len(r)) = 0
            \* the states follow the original dynamics: x' = H_lambda
            /\ \A i \in DOMAIN p.states : Eval(D(H, Lam(p.states[i].n)), env) = Eval(p.states[i].f, env)

(* Reduction removes what it should and leaves a square problem. *)
Reduction ==
    (phase = "done" /\ Cyc(Cfg) # << >>) =>
        LET p == Timed(pr)
            b == ReduceBVP(BVP(p, Cfg), Cyc(Cfg))
            all == b.rates \o b.quads \o b.laws \o b.bc0 \o b.bcf
        IN  /\ \A i \in DOMAIN Cyc(Cfg) : Cyclic(p, Cyc(Cfg)[i])
            /\ \A i \in DOMAIN all : Free(all[i].e) \cap ReducedOut(Cyc(Cfg)) = {}
            /\ \A i \in DOMAIN b.rates : \A j \in DOMAIN Cyc(Cfg) : QName(Cyc(Cfg)[j]) \notin Free(b.rates[i].e)
            /\ Len(b.bc0) + Len(b.bcf) = Len(b.rates) + Len(b.quads) + Len(b.params) + Len(b.nus)

(* Mapping a trajectory to the boundary value problem and back changes nothing. *)
RoundTrip ==
    phase = "done" =>
        LET p0 == Spelled(P0.p)
            f == Forward(p0, Cfg)
            sub == [x \in {f[i].name : i \in DOMAIN f} |-> f[CHOOSE i \in DOMAIN f : f[i].name = x].e]
            b == Backward(p0, Cfg)
            S == UNION {Free(f[i].e) : i \in DOMAIN f} \cup {b[i].name : i \in DOMAIN b} \cup AllVars
            env == Point(S, 3)
        IN  \A i \in DOMAIN b : Eval(Subst(b[i].e, sub), env) = env[b[i].name]
=============================================================================
