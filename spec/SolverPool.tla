----------------------------- MODULE SolverPool -----------------------------
(* The arcs of a trajectory are integrated by a pool of workers, in whatever   *)
(* order they are picked up and finished; the results are collected by the     *)
(* number of the arc, and accumulated quantities are joined afterwards.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Arcs, Workers
OutDir == IOEnv.OUTDIR
Arc(i) == 10 * i + 1            \* result of arc i
Length(i) == i * i + 2          \* what the quantity gains over arc i
VARIABLES queue, busy, results, order
vars == << queue, busy, results, order >>
Init == queue = [i \in 1 .. Arcs |-> i] /\ busy = [w \in 1 .. Workers |-> 0] /\ results = [i \in 1 .. Arcs |-> 0] /\ order = << >>
Take(w) == busy[w] = 0 /\ queue # << >> /\ busy' = [busy EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue) /\ UNCHANGED << results, order >>
Finish(w) == busy[w] # 0 /\ results' = [results EXCEPT ![busy[w]] = Arc(busy[w])] /\ order' = Append(order, busy[w])
             /\ busy' = [busy EXCEPT ![w] = 0] /\ UNCHANGED queue
Next == \E w \in 1 .. Workers : Take(w) \/ Finish(w)
Spec == Init /\ [][Next]_vars
Done == Len(order) = Arcs
(* Joining: arc i starts where arc i - 1 ends. *)
RECURSIVE Start(_)
Start(i) == IF i = 1 THEN 0 ELSE Start(i - 1) + Length(i - 1)
RECURSIVE Joined(_, _)
Joined(i, q) == IF i > Arcs THEN << >> ELSE << q >> \o Joined(i + 1, q + Length(i))
Serial == [i \in 1 .. Arcs |-> Arc(i)]
SameAsSerial == Done => results = Serial /\ Joined(1, 0) = [i \in 1 .. Arcs |-> Start(i)]
OnceEach == Cardinality({order[i] : i \in DOMAIN order}) = Len(order)
Emit == (Done /\ OutDir # "") =>
    Serialize(ToJson([order |-> order]) \o "\n", OutDir \o "/order" \o ToString(Arcs) \o ".ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
=============================================================================
