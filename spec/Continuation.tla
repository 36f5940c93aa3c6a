---------------------------- MODULE Continuation ----------------------------
(* The continuation (homotopy) driver of beluga: a plan is a sequence of       *)
(* continuation steps; every step proposes a sequence of points (values of its *)
(* named problem constants), the BVP solver answers "converged" or "failed"    *)
(* for each, and the strategy of the step decides what is proposed next.       *)
(*                                                                             *)
(* The state of the driver is one record m, advanced by pure operators, so     *)
(* that the exhaustive model (Next below), the scenario generator and the      *)
(* trace specification (ContinuationTrace) share one definition.               *)
(*                                                                             *)
(* All constant values are integers (multiples of a small quantum).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Last(s) == s[Len(s)]

-----------------------------------------------------------------------------
(* Schedules.  A step is a record                                              *)
(*   strat   "manual" | "bisection" | "productspace" | "sparse_product"        *)
(*   names   sequence of constant indices, in the order they were declared;    *)
(*           0 stands for a name the problem does not have                     *)
(*   targets sequence of target values (same length)                           *)
(*   n       number of cases (manual, bisection) or subdivisions (product)     *)
(*   nd, maxdiv   subdivisions per retry, bound on consecutive retries         *)
(*   major, minor subdivisions of a sparse product, per name                   *)

Interp(a, b, i, n) == IF n = 0 THEN a ELSE a + ((b - a) * i) \div n

RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)

LineSchedule(step, start) ==
    [j \in 1..step.n |-> [v \in 1..Len(step.names) |-> Interp(start[v], step.targets[v], j - 1, step.n - 1)]]

(* Full grid, last named constant varying fastest. *)
GridSchedule(step, start) ==
    LET V == Len(step.names)
        Digit(p, v) == ((p \div Pow(step.n, V - v)) % step.n)
    IN  [p \in 1..Pow(step.n, V) |->
            [v \in 1..V |-> Interp(start[v], step.targets[v], Digit(p - 1, v), step.n - 1)]]

(* Sparse grid: major lines through every major point, minor points only on    *)
(* the segments between neighbouring major points.                             *)
RECURSIVE SparseDim(_, _, _, _, _)
SparseDim(step, start, v, cloud, sched) ==
    IF v > Len(step.names) THEN sched
    ELSE LET M == step.major[v]
             K == step.minor[v]
             MajVal(i) == Interp(start[v], step.targets[v], i - 1, M - 1)
             Line(p) == [i \in 1..M |-> [p EXCEPT ![v] = MajVal(i)]]
             Seg(p, i) ==   \* minor points after major i-1, then major point i (i >= 2)
                 [k \in 1..K |-> [p EXCEPT ![v] = MajVal(i-1) + ((MajVal(i) - MajVal(i-1)) * k) \div (K + 1)]]
                   \o << Line(p)[i] >>
             RECURSIVE Segs(_, _)
             Segs(p, i) == IF i > M THEN <<>> ELSE Seg(p, i) \o Segs(p, i + 1)
             RECURSIVE AllSegs(_)
             AllSegs(c) == IF c = <<>> THEN <<>> ELSE Segs(Head(c), 2) \o AllSegs(Tail(c))
             RECURSIVE NewMaj(_)
             NewMaj(c) == IF c = <<>> THEN <<>> ELSE Tail(Line(Head(c))) \o NewMaj(Tail(c))
         IN  SparseDim(step, start, v + 1, cloud \o NewMaj(cloud), sched \o AllSegs(cloud))

SparseSchedule(step, start) == SparseDim(step, start, 1, << start >>, << start >>)

Schedule(step, start) ==
    CASE step.strat \in {"manual", "bisection"} -> LineSchedule(step, start)
      [] step.strat = "productspace"            -> GridSchedule(step, start)
      [] step.strat = "sparse_product"          -> SparseSchedule(step, start)

KnownNames(step, nconst) == \A v \in DOMAIN step.names : step.names[v] \in 1..nconst

-----------------------------------------------------------------------------
(* Driver state.                                                               *)
(*   plan   the steps; si the current step; cur all constants of the latest    *)
(*          solution; base the constants at the start of the step              *)
(*   sched  points of the step, ctr how many were proposed; divs consecutive   *)
(*          subdivisions since the last convergence                            *)
(*   recs   what the step may warm-start from: entry 1 is the incoming guess   *)
(*          (not a converged solution), then one entry per attempt             *)
(*   res    result lists, one per begun step                                   *)
(*   phase  "next" strategy's turn, "solve" waiting for the solver, "done",    *)
(*          "error"; err the kind of error; prop the proposed constants        *)

Start(plan, const, id0) ==
    [ plan |-> plan, si |-> 0, cur |-> const, base |-> const, curid |-> id0, sched |-> <<>>, orig |-> <<>>,
      ctr |-> 0, divs |-> 0, recs |-> <<>>, res |-> <<>>, phase |-> "next", err |-> "", prop |-> const,
      retry |-> FALSE, nid |-> id0 ]

Step(m) == m.plan[m.si]
StartVals(step, const) == [v \in DOMAIN step.names |-> const[step.names[v]]]
WithPoint(m, point) ==
    [c \in DOMAIN m.cur |->
        LET vs == {v \in DOMAIN Step(m).names : Step(m).names[v] = c}
        IN  IF vs = {} THEN m.cur[c] ELSE point[CHOOSE v \in vs : TRUE]]

BeginStep(m) ==
    LET k == m.si + 1 IN
    IF k > Len(m.plan) THEN [m EXCEPT !.phase = "done"]
    ELSE LET step == m.plan[k] IN
         IF ~KnownNames(step, Len(m.cur))
         THEN [m EXCEPT !.si = k, !.phase = "error", !.err = "ValueError", !.res = Append(@, <<>>)]
         ELSE LET sc == Schedule(step, StartVals(step, m.cur)) IN
              [m EXCEPT !.si = k, !.base = m.cur, !.sched = sc, !.orig = sc, !.ctr = 0, !.divs = 0, !.retry = FALSE,
                        !.recs = << [const |-> m.cur, conv |-> FALSE, id |-> m.curid] >>,
                        !.res = Append(@, <<>>)]

Propose(m) == [m EXCEPT !.phase = "solve", !.prop = WithPoint(m, m.sched[m.ctr + 1]), !.ctr = @ + 1]

Fail(m, kind) == [m EXCEPT !.phase = "error", !.err = kind]

(* New points between the last converged one and the failed one. *)
NewPoints(m) ==
    LET lo == m.sched[m.ctr - 1]
        hi == m.sched[m.ctr]
        nd == Step(m).nd
    IN  [i \in 1..(nd - 1) |-> [v \in DOMAIN lo |-> Interp(lo[v], hi[v], i, nd)]]

(* The interval is down to the resolution of the numbers: nothing new between. *)
NoProgress(m) ==
    \A i \in DOMAIN NewPoints(m) : \A v \in DOMAIN m.sched[m.ctr] :
        NewPoints(m)[i][v] \in {m.sched[m.ctr - 1][v], m.sched[m.ctr][v]}

Subdivide(m) ==
    LET new == NewPoints(m)
    IN  [m EXCEPT !.sched = SubSeq(@, 1, m.ctr - 1) \o new \o SubSeq(@, m.ctr, Len(@)),
                  !.ctr = @ - 1, !.divs = @ + 1, !.retry = TRUE]

(* One decision of the strategy. *)
Decide(m) ==
    IF m.si = 0 THEN BeginStep(m)
    ELSE LET st == Step(m).strat
             failed == m.ctr > 0 /\ ~Last(m.recs).conv
             exhausted == m.ctr >= Len(m.sched)
             go(mm) == IF exhausted THEN BeginStep(mm) ELSE Propose([mm EXCEPT !.retry = FALSE])
         IN  CASE st = "manual" -> IF failed THEN Fail(m, "RuntimeError") ELSE go(m)
               [] st = "bisection" ->
                    IF ~failed THEN go([m EXCEPT !.divs = 0])
                    ELSE IF m.ctr = 1 THEN Fail(m, "RuntimeError")
                    ELSE IF m.divs > Step(m).maxdiv THEN Fail(m, "RuntimeError")
                    ELSE IF NoProgress(m) THEN Fail(m, "RuntimeError")
                    ELSE Propose(Subdivide(m))
               [] st \in {"productspace", "sparse_product"} ->
                    IF failed /\ m.ctr = 1 THEN Fail(m, "RuntimeError") ELSE go(m)

(* Let the driver run until it needs the solver or has finished. *)
RECURSIVE Settle(_)
Settle(m) == IF m.phase = "next" THEN Settle(Decide(m)) ELSE m

(* The solver's answer to the current proposal. *)
Answer(m, conv) ==
    LET r == [const |-> m.prop, conv |-> conv, id |-> m.nid + 1]
    IN  [m EXCEPT !.phase = "next", !.recs = Append(@, r), !.res[m.si] = Append(@, r),
                  !.cur = m.prop, !.curid = m.nid + 1, !.nid = @ + 1]

RECURSIVE SumDist(_, _, _)
SumDist(a, b, i) == IF i = 0 THEN 0 ELSE Abs(a[i] - b[i]) + SumDist(a, b, i - 1)
Dist(a, b) == SumDist(a, b, Len(a))

(* Records a proposal may be warm-started from: the converged ones closest to  *)
(* it (within tol), or the incoming guess when the step has none.              *)
Sources(m, tol) ==
    LET conv == {i \in DOMAIN m.recs : m.recs[i].conv}
    IN  IF conv = {} THEN {m.recs[1].id}
        ELSE {m.recs[i].id : i \in {i \in conv : \A j \in conv :
                                        Dist(m.recs[i].const, m.prop) <= Dist(m.recs[j].const, m.prop) + tol}}

-----------------------------------------------------------------------------
(* Exhaustive model: every plan of PlanSet, every history of solver answers.   *)
CONSTANTS PlanSet,     \* sequence of plans
          Const0       \* initial constants

VARIABLES m, pid, hist
vars == << m, pid, hist >>

Init == /\ pid \in DOMAIN PlanSet
        /\ m = Settle(Start(PlanSet[pid], Const0, 0))
        /\ hist = ""

Converge == /\ m.phase = "solve"
            /\ m' = Settle(Answer(m, TRUE))
            /\ hist' = hist \o "1" /\ UNCHANGED pid
Diverge  == /\ m.phase = "solve"
            /\ m' = Settle(Answer(m, FALSE))
            /\ hist' = hist \o "0" /\ UNCHANGED pid
Next == Converge \/ Diverge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* Properties of the design, stated on the histories, not on the mechanism.    *)
Points(m_, k) == [i \in DOMAIN m_.res[k] |-> StartVals(m_.plan[k], m_.res[k][i].const)]
Completed(m_, k) == k \in DOMAIN m_.res /\ (k < m_.si \/ m_.phase = "done")
Line(k) == m.plan[k].strat \in {"manual", "bisection"}

(* C01: constants that a step does not name keep their value. *)
OnlyNamedChange ==
    \A k \in DOMAIN m.res : \A i \in DOMAIN m.res[k] : \A c \in DOMAIN m.cur :
        (\A v \in DOMAIN m.plan[k].names : m.plan[k].names[v] # c)
            => m.res[k][i].const[c] = (IF k = 1 \/ m.res[k-1] = <<>> THEN Const0[c] ELSE Last(m.res[k-1]).const[c])

(* C01: a completed step ends at its target and began at the incoming value. *)
EndsAtTarget ==
    \A k \in DOMAIN m.res : Completed(m, k) /\ (Line(k) \/ m.plan[k].strat = "productspace") /\ m.plan[k].n >= 2 =>
        /\ Last(Points(m, k)) = m.plan[k].targets
        /\ m.res[k][1].const = (IF k = 1 THEN Const0 ELSE Last(m.res[k-1]).const)

(* C02: a completed line step has a converged solution at each of its originally requested points, in order. *)
RECURSIVE SubseqOf(_, _)
SubseqOf(a, b) == IF a = <<>> THEN TRUE
                  ELSE IF b = <<>> THEN FALSE
                  ELSE IF Head(a) = Head(b) THEN SubseqOf(Tail(a), Tail(b)) ELSE SubseqOf(a, Tail(b))
StartOf(k) == IF k = 1 THEN Const0 ELSE Last(m.res[k-1]).const
CoversRequested ==
    \A k \in DOMAIN m.res : Completed(m, k) /\ Line(k) =>
        SubseqOf(Schedule(m.plan[k], StartVals(m.plan[k], StartOf(k))),
                 [i \in DOMAIN SelectSeq(m.res[k], LAMBDA r : r.conv) |->
                     StartVals(m.plan[k], SelectSeq(m.res[k], LAMBDA r : r.conv)[i].const)])

(* C02: after a failure bisection retries strictly between the last converged and the failed point. *)
RetryBetween ==
    (m.phase = "solve" /\ Step(m).strat = "bisection" /\ Len(m.recs) > 1 /\ ~Last(m.recs).conv) =>
        LET good == Last(SelectSeq(m.recs, LAMBDA r : r.conv)).const
            bad == Last(m.recs).const
        IN  \A v \in DOMAIN Step(m).names :
                LET c == Step(m).names[v] IN
                Abs(good[c] - bad[c]) >= Step(m).nd =>
                    \/ good[c] < m.prop[c] /\ m.prop[c] < bad[c]
                    \/ good[c] > m.prop[c] /\ m.prop[c] > bad[c]

(* C02/C03: the driver gives up only for a stated reason. *)
RECURSIVE TrailingFailures(_)
TrailingFailures(s) == IF s = <<>> \/ Last(s).conv THEN 0 ELSE 1 + TrailingFailures(SubSeq(s, 1, Len(s) - 1))
GivesUpOnlyIf ==
    (m.phase = "error" /\ m.err = "RuntimeError") =>
        LET r == m.res[m.si] IN
        /\ ~Last(r).conv
        /\ CASE Step(m).strat = "manual" -> TRUE
             [] Step(m).strat = "bisection" -> Len(r) = 1 \/ TrailingFailures(r) > Step(m).maxdiv + 1
                                                   \/ NoProgress(m)
             [] OTHER -> Len(r) = 1

(* C03: no failure is passed over by a line strategy. *)
NoSilentFailure ==
    \A k \in DOMAIN m.res : Completed(m, k) /\ Line(k) /\ m.res[k] # <<>> => Last(m.res[k]).conv
ManualAllConverged ==
    \A k \in DOMAIN m.res : Completed(m, k) /\ m.plan[k].strat = "manual" =>
        \A i \in DOMAIN m.res[k] : m.res[k][i].conv

(* C03: an unknown constant is rejected before anything is solved in that step. *)
UnknownRejected ==
    \A k \in DOMAIN m.plan : ~KnownNames(m.plan[k], Len(Const0)) =>
        (m.si >= k => m.phase = "error" /\ m.err = "ValueError" /\ m.res[k] = <<>>)

(* C04: a proposal is warm-started from a closest converged solution of the step. *)
WarmStart ==
    m.phase = "solve" =>
        /\ Sources(m, 0) # {}
        /\ (\E i \in DOMAIN m.recs : m.recs[i].conv) =>
              \A s \in Sources(m, 0) : \E i \in DOMAIN m.recs : m.recs[i].id = s /\ m.recs[i].conv

(* C05: one result per answer, in order. *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Bookkeeping ==
    /\ Len(Flat(m.res)) = Len(hist)
    /\ \A i \in DOMAIN Flat(m.res) : Flat(m.res)[i].id = i

GridOnce ==
    \A k \in DOMAIN m.res : Completed(m, k) /\ m.plan[k].strat = "productspace" =>
        /\ Len(m.res[k]) = Pow(m.plan[k].n, Len(m.plan[k].names))
        /\ Cardinality({Points(m, k)[i] : i \in DOMAIN m.res[k]}) = Len(m.res[k])

AppendOnly == [][\A k \in DOMAIN m.res : k \in DOMAIN m'.res /\ SubSeq(m'.res[k], 1, Len(m.res[k])) = m.res[k]]_vars

Terminates == <>(m.phase \in {"done", "error"})

(* Scenario generation: print every complete history, and every unfinished one *)
(* of the maximal length explored.                                             *)
CONSTANT MaxAttempts
Bounded == Len(hist) < MaxAttempts
Emit == (m.phase \in {"done", "error"} \/ Len(hist) = MaxAttempts) => PrintT(<< "SCN", pid, hist >>)
=============================================================================
