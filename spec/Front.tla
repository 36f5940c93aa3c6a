-------------------------------- MODULE Front --------------------------------
(* What a request to solve a problem leads to: a refusal before anything is    *)
(* solved, or the solution of one well-defined boundary value problem.         *)
(*   request  cpus   number of processes                                       *)
(*            ocp    0, or the number of the problem given; the third one     *)
(*                   has a bound to be enforced by a method that isn't known   *)
(*            bvp    0, or the number of an earlier request whose compiled     *)
(*                   problem is given                                          *)
(*            maps   which of the two maps are given with it                   *)
(*            method, cm  names of the method and of the control method        *)
(*            jac    analytical Jacobians asked for                            *)
(* Names are given with a spelling: "lower", "Title" or "UPPER".               *)
EXTENDS Integers, Sequences, FiniteSets
Methods == {"indirect", "traditional", "brysonho", "diffyg", "nosuch"}
ControlMethods == {"differential", "algebraic", "numeric", "nosuch"}
Canon(m) == IF m \in {"indirect", "traditional", "brysonho"} THEN "traditional" ELSE m
(* All reasons to refuse a request; which one is told first is not said. *)
Reasons(r, kept) ==
    (IF r.cpus < 1 THEN {"ValueError"} ELSE {})
    \cup (IF r.ocp = 0 THEN {"NotImplementedError"} ELSE {})
    \cup (IF r.bvp = 0 /\ r.ocp = 3 THEN {"NotImplementedError"} ELSE {})
    \cup (IF r.bvp # 0 /\ r.maps # "both" THEN {"ValueError"} ELSE {})
    \cup (IF r.bvp = 0 /\ Canon(r.method) \notin {"traditional", "diffyg"} THEN {"NotImplementedError"} ELSE {})
    \cup (IF r.bvp = 0 /\ r.cm \notin {"differential", "algebraic"} THEN {"NotImplementedError"} ELSE {})
(* The boundary value problem solved. *)
Key(r, kept) == IF r.bvp # 0 THEN kept[r.bvp] ELSE [ocp |-> r.ocp, method |-> Canon(r.method), cm |-> r.cm]
(* Number of states of the problem solved: states and time with their costates, controls (and their costates). *)
Controls(k) == IF k.ocp = 1 THEN 1 ELSE 2
States(k) == IF k.ocp = 1 THEN 1 ELSE 2
Unknowns(k) == 2 * (States(k) + 1) + (CASE k.cm = "algebraic" -> 0 [] k.method = "diffyg" -> 2 * Controls(k) [] OTHER -> Controls(k))
=============================================================================
