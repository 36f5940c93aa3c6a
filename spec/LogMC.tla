-------------------------------- MODULE LogMC --------------------------------
EXTENDS Log, Json, IOUtils
CONSTANTS MaxOps, Levels, Names, Says
OutDir == IOEnv.OUTDIR
VARIABLES s, hist, phase
vars == << s, hist, phase >>
Init == s = S0 /\ hist = << >> /\ phase = "go"
Ops == {[op |-> "setup", how |-> h, disp |-> d, flev |-> f, name |-> n, lev |-> 0] : h \in {"init", "add"}, d \in Levels, f \in Levels, n \in Names}
       \cup {[op |-> "setup", how |-> h, disp |-> 20, flev |-> IF h = "init" THEN 0 ELSE 10, name |-> "beluga.log", lev |-> -1] : h \in {"init", "add"}}
       \cup {[op |-> "say", how |-> w, disp |-> 0, flev |-> 0, name |-> "", lev |-> l] : w \in Says, l \in {10, 20, 30, 40, 50}}
(* In long histories a set-up is followed by a few messages. *)
Count == Len(SelectSeq(hist, LAMBDA o : o.op = "setup"))
Pairs == MaxOps < 6 \/ (4 * Count <= Len(hist))
Do == /\ phase = "go" /\ Len(hist) < MaxOps
      /\ \E o \in Ops : /\ (o.op = "setup" => Pairs)
                        /\ s' = Step(s, o, Len(hist) + 1) /\ hist' = Append(hist, o)
      /\ UNCHANGED phase
Finish == /\ phase = "go" /\ Len(hist) = MaxOps /\ phase' = "done"
          /\ IF OutDir # "" THEN /\ TLCSet(7, TLCGet(7) + 1)
                                 /\ JsonSerialize(OutDir \o "/" \o ToString(TLCGet(7)) \o ".json", hist)
             ELSE TRUE
          /\ UNCHANGED << s, hist >>
Spec == Init /\ TLCSet(7, 0) /\ [][Do \/ Finish]_vars
RangeOf(q) == {q[i] : i \in DOMAIN q}
(* Files not set up last never change; nothing is ever shown twice. *)
Others == [][phase' = phase => \A f \in DOMAIN s.files : f # s.name => s'.files[f] = s.files[f]]_vars
Once == \A i, j \in DOMAIN s.screen : i < j => s.screen[i] < s.screen[j]
OnlySaid == \A f \in DOMAIN s.files : \A m \in RangeOf(s.files[f]) : hist[m].op = "say"
=============================================================================
