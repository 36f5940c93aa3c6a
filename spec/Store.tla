-------------------------------- MODULE Store --------------------------------
(* Saving and loading results.                                                 *)
(*   live    what the user works with: [sols, ocp, bvp]                        *)
(*           sols  sequence of steps, each a sequence of solutions; a solution *)
(*                 is [y, const, meta], numbers standing for all of the data   *)
(*                 of a kind (arrays of the trajectory; constants and          *)
(*                 parameters; cost and convergence)                           *)
(*           ocp, bvp   numbers standing for the problem                       *)
(*   files   file name -> the parts saved last, or absent                      *)
(*   loaded  what was loaded so far (each its own copy)                        *)
(* A file holds what the parts were when they were saved, whatever happens to  *)
(* the live or loaded objects afterwards.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Parts == {"solutions", "ocp", "bvp"}
Get(s, part) == IF part = "solutions" THEN s.sols ELSE IF part = "ocp" THEN s.ocp ELSE s.bvp
Snapshot(live, parts) == [p \in parts |-> Get(live, p)]
Absent == [absent |-> TRUE]

S0 == [files |-> << >>, live |-> [sols |-> << << [y |-> 1, const |-> 2, meta |-> 3] >> >>, ocp |-> 4, bvp |-> 5],
       loaded |-> << >>]

(* Operations: op, f (file), parts, what, i (which loaded copy, 0: live), v (a fresh number) *)
Missing(s, f) == f \notin DOMAIN s.files
Touch(obj, o) ==
    CASE o.what \in {"y", "const", "meta"} -> [obj EXCEPT !.sols = [@ EXCEPT ![1] = [@ EXCEPT ![1] = [@ EXCEPT ![o.what] = o.v]]]]
      [] o.what = "append" -> [obj EXCEPT !.sols = Append(@, << [y |-> o.v, const |-> o.v, meta |-> o.v] >>)]
      [] o.what = "ocp" -> [obj EXCEPT !.ocp = o.v]
      [] OTHER -> [obj EXCEPT !.bvp = o.v]
TouchParts(rec, o) ==     \* a loaded copy has only the parts that were saved
    CASE o.what \in {"y", "const", "meta"} -> [rec EXCEPT !.solutions = [@ EXCEPT ![1] = [@ EXCEPT ![1] = [@ EXCEPT ![o.what] = o.v]]]]
      [] o.what = "append" -> [rec EXCEPT !.solutions = Append(@, << [y |-> o.v, const |-> o.v, meta |-> o.v] >>)]
      [] o.what = "ocp" -> [rec EXCEPT !.ocp = o.v]
      [] OTHER -> [rec EXCEPT !.bvp = o.v]
PartOf(what) == IF what \in {"ocp", "bvp"} THEN what ELSE "solutions"
CanTouch(s, o) == o.i = 0 \/ (o.i \in DOMAIN s.loaded /\ PartOf(o.what) \in DOMAIN s.loaded[o.i])

Step(s, o) ==
    CASE o.op = "save" -> [s EXCEPT !.files = (o.f :> Snapshot(s.live, o.parts)) @@ @]
      [] o.op = "load" -> IF Missing(s, o.f) THEN s ELSE [s EXCEPT !.loaded = Append(@, s.files[o.f])]
      [] o.op = "touch" -> IF o.i = 0 THEN [s EXCEPT !.live = Touch(@, o)] ELSE [s EXCEPT !.loaded[o.i] = TouchParts(@, o)]
      \* solving with a loaded (or the live) problem, results saved or not
      [] o.op = "solve" -> IF o.f = "" THEN [s EXCEPT !.live.sols = << << [y |-> o.v, const |-> s.live.ocp, meta |-> o.v] >> >>]
                           ELSE LET n == [s EXCEPT !.live.sols = << << [y |-> o.v, const |-> s.live.ocp, meta |-> o.v] >> >>]
                                IN  [n EXCEPT !.files = (o.f :> [solutions |-> n.live.sols, ocp |-> n.live.ocp, bvp |-> n.live.ocp]) @@ @]
Outcome(s, o) == IF o.op = "load" /\ Missing(s, o.f) THEN "FileNotFoundError" ELSE ""
=============================================================================
