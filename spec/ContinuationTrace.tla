-------------------------- MODULE ContinuationTrace --------------------------
(* Validates traces recorded from the real driver (run_continuation_set and    *)
(* beluga.solve with an instrumented solver) against Continuation.             *)
(*                                                                             *)
(* Events                                                                      *)
(*  scn  start of a run: kind ("fold": the solver fails beyond some value of    *)
(*       the constants, only the way the run ends is judged), plan (steps with targets in both coordinates),        *)
(*       const0 = [x, e, h], id0                                               *)
(*  att  the solver was called: k = [x, e, h] the constants of the guess,      *)
(*       src the tag of the solution the guess was copied from, intact whether *)
(*       the guess holds exactly that solution's data, conv the answer given,  *)
(*       id the tag of the answer                                              *)
(*  setn an attempt to change the number of cases in mid-run: raised           *)
(*  end  how the run ended: out = "ok" | exception name | "cut" (the harness   *)
(*       stopped it), and the result lists as seen by the caller               *)
(*  sav  the file written by the run: same = result lists read back            *)
(* Coordinates of a constant: x = value / quantum (for linear spacing),        *)
(* e = log10 / quantum (for logarithmic spacing), h = full precision text.     *)
EXTENDS Continuation, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Tol == 2              \* quanta of rounding in the recorded coordinates

VARIABLES l, st, lost, log, nxt
tvars == << l, st, lost, log, nxt, m, pid, hist >>

(* The abstract step in the coordinate the step uses. *)
Coord(k, spacing) == IF spacing = "log" THEN k.e ELSE k.x
AStep(s) == [strat |-> s.strat, names |-> s.names, targets |-> IF s.spacing = "log" THEN s.te ELSE s.tx,
             n |-> s.n, nd |-> s.nd, maxdiv |-> s.maxdiv, major |-> s.major, minor |-> s.minor,
             spacing |-> s.spacing]

Near(a, b) == Abs(a - b) <= Tol

(* Before deciding, if the next thing is a new step, use its coordinate. *)
NextSpacing(mm) == IF mm.si + 1 <= Len(mm.plan) THEN mm.plan[mm.si + 1].spacing ELSE "linear"

RECURSIVE Go(_, _)
Go(mm, k) ==
    IF mm.phase # "next" THEN mm
    ELSE LET begins == mm.si = 0 \/ (mm.ctr >= Len(mm.sched) /\ (mm.ctr = 0 \/ Last(mm.recs).conv
                                      \/ (Step(mm).strat \in {"productspace", "sparse_product"} /\ mm.ctr > 1)))
             m2 == IF begins THEN [mm EXCEPT !.cur = Coord(k, NextSpacing(mm))] ELSE mm
         IN  Go(Decide(m2), k)

(* Distances for the warm start are between the actual values. *)
XSources(mm, xs, px) ==
    LET conv == {i \in DOMAIN mm.recs : mm.recs[i].conv}
    IN  IF conv = {} THEN {mm.recs[1].id}
        ELSE {mm.recs[i].id : i \in {i \in conv : \A j \in conv :
                 Dist(xs[mm.recs[i].id + 1], px) <= Dist(xs[mm.recs[j].id + 1], px) + 2 * Len(px)}}

Strat == IF st.si = 0 THEN "none" ELSE Step(st).strat
AfterFailure == st.si > 0 /\ st.ctr > 0 /\ Len(st.recs) > 1 /\ ~Last(st.recs).conv

(* Named constants of the step, by index. *)
NamedSet(mm) == {Step(mm).names[v] : v \in DOMAIN Step(mm).names}

PointOK(mm, k) == \A c \in NamedSet(mm) : Near(Coord(k, Step(mm).spacing)[c], mm.prop[c])
UnnamedOK(mm, k, prev) == \A c \in DOMAIN prev.h : c \notin NamedSet(mm) => k.h[c] = prev.h[c]

(* In a grid step any not yet visited point of the grid may be proposed, the first being the starting point. *)
Unordered(mm) == Step(mm).strat \in {"productspace", "sparse_product"}
GridVisited(mm) == {StartVals(Step(mm), mm.recs[i].const) : i \in 2..Len(mm.recs)}
NearPoint(p, q) == \A v \in DOMAIN p : Near(p[v], q[v])
ObsPoint(mm, k) == StartVals(Step(mm), Coord(k, Step(mm).spacing))
GridOK(mm, k) ==
    LET p == ObsPoint(mm, k) IN
    /\ \E i \in DOMAIN mm.sched : NearPoint(mm.sched[i], p)
    /\ Cardinality({i \in 2..Len(mm.recs) : NearPoint(StartVals(Step(mm), mm.recs[i].const), p)})
          < Cardinality({i \in DOMAIN mm.sched : NearPoint(mm.sched[i], p)})
    /\ mm.ctr = 1 => NearPoint(mm.sched[1], p)

Report(i, S) == \A c \in S : PrintT(<< "BAD", i, c >>)

-----------------------------------------------------------------------------
TInit == /\ l = 1 /\ lost = TRUE /\ log = << >> /\ nxt = << >>
         /\ st = Start(<<>>, <<0>>, 0)
         /\ m = 0 /\ pid = 0 /\ hist = ""

E == Trace[l]
Advance == l' = l + 1 /\ UNCHANGED << m, pid, hist >>

Scn == /\ E.ev = "scn"
       /\ LET plan == [i \in DOMAIN E.plan |-> AStep(E.plan[i])]
          IN  st' = IF E.kind = "fold" THEN [Start(plan, E.const0.x, 0) EXCEPT !.phase = "fold"]
                    ELSE IF E.nosteps THEN [Start(plan, E.const0.x, 0) EXCEPT !.phase = "single"]
                    ELSE Go(Start(plan, E.const0.x, 0), E.const0)
       /\ nxt' = << E.const0 >>       \* full coordinates by tag + 1
       /\ lost' = FALSE /\ log' = << >>
       /\ Advance

(* The clauses an attempt violates. *)
AttBad ==
    IF st.phase = "done" THEN {"C01.attempt-after-completion"}
    ELSE IF st.phase = "error" THEN
        IF st.err = "ValueError" THEN {"C03.unknown-constant-solved"}
        ELSE IF Strat = "bisection" THEN {"C02.continues-after-giving-up"}
        ELSE {"C03.continues-after-failure"}
    ELSE LET prev == nxt[Len(nxt)]
             okp == IF Unordered(st) THEN GridOK(st, E.k) ELSE PointOK(st, E.k)
             retry == Strat = "bisection" /\ st.retry
             xs == [i \in DOMAIN nxt |-> nxt[i].x]
         IN  (IF okp THEN {} ELSE IF retry THEN {"C02.retry-point"}
              ELSE IF Strat = "bisection" /\ st.sched # st.orig THEN {"C01.point", "C02.resume-point"}
              ELSE {"C01.point"})
             \cup (IF UnnamedOK(st, E.k, prev) THEN {} ELSE {"C01.unnamed-constant-changed"})
             \cup (IF ~okp \/ E.src \in XSources(st, xs, E.k.x) THEN {}
                   ELSE {"C04.guess-not-closest-converged"})
             \cup (IF E.intact THEN {} ELSE {"C04.guess-content"})

Att == /\ E.ev = "att"
       /\ IF lost THEN UNCHANGED << st, lost, log, nxt >>
          ELSE IF st.phase = "fold" THEN UNCHANGED << st, lost, log, nxt >>
          ELSE IF st.phase = "single" THEN
              /\ Report(l, IF E.k.h = nxt[1].h THEN {} ELSE {"C05.single-solve-constants"})
              /\ st' = [st EXCEPT !.phase = "single1"]
              /\ log' = << << [id |-> E.id, conv |-> E.conv, h |-> E.k.h] >> >>
              /\ UNCHANGED << lost, nxt >>
          ELSE IF st.phase = "single1" THEN
              /\ Report(l, {"C05.single-solve-repeated"}) /\ lost' = TRUE /\ UNCHANGED << st, log, nxt >>
          ELSE LET bad == AttBad
                   structural == bad \cap {"C01.attempt-after-completion", "C03.unknown-constant-solved",
                                           "C02.continues-after-giving-up", "C03.continues-after-failure",
                                           "C02.retry-point", "C02.resume-point", "C01.point"}
               IN  /\ Report(l, bad)
                   /\ IF structural # {} THEN lost' = TRUE /\ UNCHANGED << st, log, nxt >>
                      ELSE LET \* adopt the observed values, so that rounding does not accumulate
                               obs == [c \in DOMAIN st.prop |-> Coord(E.k, Step(st).spacing)[c]]
                               m1 == [st EXCEPT !.prop = obs,
                                                !.sched = IF Unordered(st) THEN @
                                                          ELSE [@ EXCEPT ![st.ctr] = ObsPoint(st, E.k)]]
                               m2 == Answer(m1, E.conv)
                           IN  /\ st' = Go([m2 EXCEPT !.nid = E.id, !.curid = E.id], E.k)
                               /\ nxt' = Append(nxt, E.k)
                               /\ log' = IF st.si > Len(log)
                                         THEN Append(log, << [id |-> E.id, conv |-> E.conv, h |-> E.k.h] >>)
                                         ELSE [log EXCEPT ![st.si] = Append(@, [id |-> E.id, conv |-> E.conv, h |-> E.k.h])]
                               \* below the resolution of the recorded values nothing more can be judged
                               /\ lost' = (/\ Strat = "bisection" /\ ~E.conv /\ st.ctr > 1
                                           /\ \A v \in DOMAIN m1.sched[st.ctr] :
                                                 Abs(m1.sched[st.ctr][v] - m1.sched[st.ctr - 1][v]) < 50)
       /\ Advance

SetN == /\ E.ev = "setn"
        /\ Report(l, IF E.raised = "RuntimeError" THEN {} ELSE {"C03.cases-changed-in-mid-run"})
        /\ UNCHANGED << st, lost, log, nxt >> /\ Advance

(* What the caller got: ids, flags and constants of each attempt, list per step. *)
SameResults(res) ==
    (IF Len(res) = Len(log) /\ \A i \in DOMAIN log : i \in DOMAIN res /\ Len(res[i]) = Len(log[i])
     THEN UNION {UNION {(IF res[i][j].id = log[i][j].id THEN {} ELSE {"C05.result-order"})
                        \cup (IF res[i][j].conv = log[i][j].conv THEN {} ELSE {"C05.converged-flag"})
                        \cup (IF res[i][j].h = log[i][j].h THEN {} ELSE {"C05.result-constants"})
                        \cup (IF res[i][j].intact THEN {} ELSE {"C05.result-altered"})
                        : j \in DOMAIN log[i]} : i \in DOMAIN log}
     ELSE {"C05.result-count"})

EndBad ==
    LET bis == Strat = "bisection" IN
    IF st.phase = "fold" THEN
        (IF E.out = "RuntimeError" THEN {} ELSE IF E.out = "cap" THEN {"C02.does-not-terminate"}
         ELSE {"C02.failure-not-reported"})
    ELSE IF E.out \in {"cut", "cap"} THEN {}
    ELSE IF st.phase \in {"single", "single1"} THEN
        (IF E.out = "ok" /\ st.phase = "single1" THEN SameResults(E.res) ELSE {"C05.single-solve-outcome"})
    ELSE IF st.phase = "done" THEN
        (IF E.out = "ok" THEN SameResults(E.res)
         ELSE IF bis THEN {"C02.spurious-error"} ELSE {"C03.spurious-error"})
    ELSE IF st.phase = "error" THEN
        (IF E.out = st.err THEN {}
         ELSE IF st.err = "ValueError" THEN {"C03.unknown-constant-accepted"}
         ELSE IF bis THEN {"C02.failure-not-reported", "C03.failure-not-reported"} ELSE {"C03.failure-not-reported"})
    ELSE \* the driver should still be proposing points
        (IF E.out = "ok" THEN (IF AfterFailure /\ bis THEN {"C02.gave-up-silently", "C03.failure-not-reported"}
                               ELSE {"C01.stopped-early"})
         ELSE IF AfterFailure /\ bis THEN {"C02.gave-up-early"}
         ELSE IF AfterFailure THEN {"C03.stops-grid-on-failure"}
         ELSE IF bis THEN {"C01.stopped-early", "C02.spurious-error"}
         ELSE {"C01.stopped-early", "C03.spurious-error"})

End == /\ E.ev = "end"
       /\ IF lost THEN TRUE ELSE Report(l, EndBad)
       /\ UNCHANGED << st, lost, log, nxt >> /\ Advance

Sav == /\ E.ev = "sav"
       /\ Report(l, (IF E.exists THEN {} ELSE {"C05.save-file-missing"})
                    \cup (IF E.exists /\ ~E.same THEN {"C05.save-file-differs"} ELSE {}))
       /\ UNCHANGED << st, lost, log, nxt >> /\ Advance

TNext == l <= Len(Trace) /\ (Scn \/ Att \/ SetN \/ End \/ Sav)
TSpec == TInit /\ [][TNext]_tvars

Consumed == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1 >>)
=============================================================================
