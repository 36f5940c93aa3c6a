------------------------------ MODULE DeclareMC ------------------------------
(* Histories of declarations, copies and solves on up to two objects.  The     *)
(* first Small items only when Small > 0 (exhaustive run); all of them in      *)
(* simulation, where every completed history is written out.                   *)
EXTENDS Declare, Json, IOUtils
CONSTANTS CodaLen, Pace, Small, MaxExtra, EarlySet, LateSet
OutDir == IOEnv.OUTDIR

VARIABLES objs, todo, extra, hist, phase, coda, base
vars == << objs, todo, extra, hist, phase, coda, base >>

EarlyUsed == IF Small > 0 THEN EarlySet ELSE DOMAIN Early
LateUsed == IF Small > 0 THEN LateSet ELSE DOMAIN Late
Init == objs = << << >> >> /\ base \in (IF Small > 0 THEN {1} ELSE DOMAIN Bases)
        /\ todo = << IF Small > 0 THEN 1 .. Small ELSE Bases[base] >> /\ extra = 0 /\ hist = << >> /\ phase = "go"
        /\ coda \in [1 .. CodaLen -> {"solve", "copy", "declare"}]

Do(o, d) == [op |-> "declare", o |-> o, d |-> d, out |-> Refused(objs[o], d)]
Declare(o, i) == /\ i \in todo[o]
                 /\ objs' = [objs EXCEPT ![o] = Declared(@, Items[i])]
                 /\ todo' = [todo EXCEPT ![o] = @ \ {i}]
                 /\ hist' = Append(hist, Do(o, Items[i]))
                 /\ UNCHANGED << extra, phase, coda >>
Rest == \A o \in DOMAIN objs : todo[o] = {}
(* Extra steps are spread over the history; when all is declared the coda, a   *)
(* plan chosen in the beginning, says which follow.                            *)
Room(kind) == IF Rest /\ coda # << >> THEN coda[1] = kind /\ coda' = Tail(coda)
              ELSE ~Rest /\ extra < MaxExtra /\ Pace * extra <= Len(hist) - extra /\ UNCHANGED coda
Try(o, d) == /\ Room("declare")
             /\ objs' = [objs EXCEPT ![o] = Declared(@, d)]
             /\ extra' = extra + 1
             /\ hist' = Append(hist, Do(o, d))
             /\ UNCHANGED << todo, phase >>
TryLate(o, d) == Claims(d) \cap Used(objs[o]) # {} /\ Try(o, d)
(* An object without a state, or a complete one, can be solved at any time. *)
Solve(o) == /\ Room("solve") /\ (Of(objs[o], "state") = << >> \/ Complete(base, objs[o], todo[o]))
            /\ extra' = extra + 1
            /\ hist' = Append(hist, [op |-> "solve", o |-> o, out |-> Unsolvable(objs[o]), p |-> ProblemOf(objs[o])])
            /\ UNCHANGED << objs, todo, phase >>
Copy == /\ Len(objs) = 1 /\ Room("copy") /\ \A i \in todo[1] : Items[i].n = << >>
        /\ objs' = Append(objs, objs[1]) /\ todo' = Append(todo, todo[1]) /\ extra' = extra + 1
        /\ hist' = Append(hist, [op |-> "copy", o |-> 1]) /\ UNCHANGED phase
(* Finally every object is solved. *)
Skip == /\ Rest /\ coda # << >> /\ coda[1] = "copy" /\ Len(objs) > 1 /\ coda' = Tail(coda)
        /\ UNCHANGED << objs, todo, extra, hist, phase >>
Finish == /\ phase = "go" /\ Rest /\ coda = << >>
          /\ phase' = "done"
          /\ hist' = hist \o [o \in DOMAIN objs |-> [op |-> "solve", o |-> o, out |-> Unsolvable(objs[o]), p |-> ProblemOf(objs[o])]]
          /\ IF OutDir # "" THEN /\ TLCSet(7, TLCGet(7) + 1)
                                 /\ JsonSerialize(OutDir \o "/" \o ToString(TLCGet(7)) \o ".json", hist')
             ELSE TRUE
          /\ UNCHANGED << objs, todo, extra, coda >>
Next == phase = "go" /\ UNCHANGED base /\ (
        \/ \E o \in DOMAIN objs : \/ \E i \in todo[o] : Declare(o, i)
                                  \/ \E j \in EarlyUsed : Try(o, Early[j])
                                  \/ \E j \in LateUsed : TryLate(o, Late[j])
                                  \/ Solve(o)
        \/ Copy
        \/ Skip \/ Finish)
Spec == Init /\ TLCSet(7, 0) /\ [][Next]_vars

-----------------------------------------------------------------------------
(* No name stands for two things. *)
Unique == \A o \in DOMAIN objs : \A i \in DOMAIN objs[o] : \A j \in DOMAIN objs[o] :
              i # j => Claims(objs[o][i]) \cap Claims(objs[o][j]) = {}
(* What was accepted stays, and nothing else gets in. *)
Faithful == \A o \in DOMAIN objs : \A i \in DOMAIN objs[o] : \E h \in DOMAIN hist :
                hist[h].op = "declare" /\ hist[h].d = objs[o][i] /\ hist[h].out = ""
(* The order of the accepted declarations does not matter, cost terms and the  *)
(* independent variable (the last one counts) apart.                           *)
Ordered == {"path", "initial", "terminal", "setcost", "independent"}
Swapped(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
AsSets(p) == [p EXCEPT !.states = RangeOf(@), !.controls = RangeOf(@), !.consts = RangeOf(@), !.quants = RangeOf(@),
                       !.switches = RangeOf(@), !.psi0 = RangeOf(@), !.psif = RangeOf(@), !.ineq = RangeOf(@)]
OrderIrrelevant ==
    \A o \in DOMAIN objs : \A i \in 1 .. (Len(objs[o]) - 1) :
        ~(objs[o][i].k \in Ordered /\ objs[o][i + 1].k \in Ordered)
        => AsSets(ProblemOf(objs[o])) = AsSets(ProblemOf(Swapped(objs[o], i)))
=============================================================================
