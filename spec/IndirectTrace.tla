---------------------------- MODULE IndirectTrace ----------------------------
(* Checks what was observed of the compiled boundary value problems against    *)
(* Indirect.  Events per problem:                                              *)
(*   scn    mode: "bvp" (the functions of the problem) or "map" (mapping       *)
(*          trajectories to it and back),                                      *)
(*          idx (position in the list of problems), jac (Jacobians requested)  *)
(*   shape  names of the unknowns                                              *)
(*   item   name of a necessary condition, err: deviation of the compiled      *)
(*          function from the condition's tree at random points, in quanta     *)
(*          alt: (bounded controls) the same, from the known deviation         *)
(*   bcs    number of boundary conditions                                      *)
(*   end    out = "ok" or the exception                                        *)
EXTENDS Indirect, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Problems == JsonDeserialize(IOEnv.PROBLEMS)
Tol == 1000           \* quanta of 1e-9

VARIABLES l, cur, seen, exp
tvars == << l, cur, seen, exp >>

E == Trace[l]
Report(i, S) == \A c \in S : PrintT(<< "BAD", i, c >>)
JacNames == {"jac fy", "jac fp", "jac by0", "jac byf", "jac bp"}
Expected(idx, jac, mode) ==
    IF mode = "map" THEN [names |-> MapNames(Spelled(Problems[idx].p), Problems[idx].cfg)] ELSE
    LET b == FinalBVP(Problems[idx].p, Problems[idx].cfg)
    IN  [names |-> ItemNames(b) \cup (IF Problems[idx].cfg.control = "algebraic" THEN {"minimum"} ELSE {})
                   \cup (IF jac THEN JacNames \cup (IF b.quads # << >> THEN {"jac bq0", "jac bqf"} ELSE {}) ELSE {}),
         nquads |-> Len(b.quads),
         states |-> RangeOf([i \in DOMAIN b.rates |-> b.rates[i].name]),
         params |-> RangeOf(b.params), nus |-> RangeOf(b.nus), nbc |-> Len(b.bc0) + Len(b.bcf),
         nstates |-> Len(b.rates)]

TInit == l = 1 /\ cur = 0 /\ seen = {} /\ exp = << >>

Scn == /\ E.ev = "scn" /\ cur' = E.idx /\ seen' = {} /\ exp' = Expected(E.idx, E.jac, E.mode)
Shape == /\ E.ev = "shape"
         /\ Report(l, (IF RangeOf(E.states) = exp.states /\ Len(E.states) = exp.nstates THEN {} ELSE {"unknown states"})
                      \cup (IF RangeOf(E.params) = exp.params /\ E.quads = exp.nquads THEN {} ELSE {"unknown parameters"})
                      \cup (IF RangeOf(E.nus) = exp.nus THEN {} ELSE {"multipliers"}))
         /\ UNCHANGED << cur, seen, exp >>
Item2 == /\ E.ev = "item"
         /\ Report(l, IF E.err <= Tol THEN {} ELSE IF "alt" \in DOMAIN E /\ E.alt <= Tol THEN {"half angle"} ELSE {E.name})
         /\ seen' = seen \cup {E.name}
         /\ UNCHANGED << cur, exp >>
Bcs == /\ E.ev = "bcs" /\ Report(l, IF E.n = exp.nbc THEN {} ELSE {"number of boundary conditions"})
       /\ UNCHANGED << cur, seen, exp >>
End == /\ E.ev = "end"
       /\ Report(l, (IF E.out = "ok" THEN {} ELSE {"no boundary value problem"})
                    \cup {n \in exp.names : E.out = "ok" /\ n \notin seen})
       /\ UNCHANGED << cur, seen, exp >>

TNext == l <= Len(Trace) /\ (Scn \/ Shape \/ Item2 \/ Bcs \/ End) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
Consumed == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1 >>)
=============================================================================
