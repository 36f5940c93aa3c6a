------------------------------- MODULE FrontMC -------------------------------
EXTENDS Front, TLC, Json, IOUtils
CONSTANTS MaxOps, MaxGood, Random
OutDir == IOEnv.OUTDIR
VARIABLES kept, hist, phase
vars == << kept, hist, phase >>
Spell == {"lower", "Title", "UPPER"}
Init == kept = << >> /\ hist = << >> /\ phase = "go"
Good == Len(kept)
Requests == [cpus : {-1, 0, 1, 3}, ocp : 0 .. 3, bvp : 0 .. Len(kept), maps : {"both", "none", "to", "from"}, method : Methods,
             mspell : Spell, cm : ControlMethods, cspell : Spell, jac : BOOLEAN]
(* Mostly reasonable requests: not more than two things wrong. *)
Wrong(r) == Cardinality({f \in 1 .. 6 : CASE f = 1 -> r.cpus < 1 [] f = 2 -> r.ocp = 0 [] f = 3 -> r.maps # "both" [] f = 4 -> r.method = "nosuch" [] f = 6 -> r.ocp = 3
                                          [] OTHER -> r.cm \in {"numeric", "nosuch"}})
Fits(r) == (r.bvp # 0 /\ r.ocp # 0 => r.ocp = kept[r.bvp].ocp) /\ Wrong(r) <= 2
(* In simulation: one request at a time, half of them without a flaw. *)
Pick(S) == RandomElement(S)
Flawed(f, r) == CASE f = 1 -> [r EXCEPT !.cpus = Pick({-1, 0})] [] f = 2 -> [r EXCEPT !.ocp = 0]
                  [] f = 3 -> [r EXCEPT !.maps = Pick({"none", "to", "from"})] [] f = 4 -> [r EXCEPT !.method = "nosuch"]
                  [] f = 5 -> [r EXCEPT !.cm = Pick({"numeric", "nosuch"})] [] f = 6 /\ r.bvp = 0 -> [r EXCEPT !.ocp = 3] [] OTHER -> r
Sound(b) == [cpus |-> Pick({1, 3}), ocp |-> IF b = 0 THEN Pick({1, 2}) ELSE kept[b].ocp, bvp |-> b, maps |-> "both",
             method |-> Pick(Methods \ {"nosuch"}), mspell |-> Pick(Spell), cm |-> Pick({"differential", "algebraic"}),
             cspell |-> Pick(Spell), jac |-> Pick(BOOLEAN)]
Picks == LET b == Pick({0} \cup {Pick(0 .. Len(kept))}) IN {Flawed(Pick(1 .. 20), Flawed(Pick(1 .. 10), Sound(x))) : x \in {b}}
Do == /\ phase = "go" /\ Len(hist) < MaxOps
      /\ \E r \in IF Random THEN Picks ELSE Requests :
            /\ (Random \/ Fits(r))
            /\ LET why == Reasons(r, kept) IN
               /\ (~ Random /\ why = {} => Good < MaxGood)
               /\ kept' = IF why = {} THEN Append(kept, Key(r, kept)) ELSE kept
               /\ hist' = Append(hist, r)
      /\ UNCHANGED phase
Finish == /\ phase = "go" /\ (Len(hist) = MaxOps) /\ phase' = "done"
          /\ IF OutDir # "" THEN /\ TLCSet(7, TLCGet(7) + 1)
                                 /\ JsonSerialize(OutDir \o "/" \o ToString(TLCGet(7)) \o ".json", hist)
             ELSE TRUE
          /\ UNCHANGED << kept, hist >>
Spec == Init /\ TLCSet(7, 0) /\ [][Do \/ Finish]_vars
(* A problem solved again from its compiled form is the one it was compiled as. *)
Stable == \A i \in DOMAIN kept : Canon(kept[i].method) = kept[i].method /\ kept[i].method \in {"traditional", "diffyg"} /\ kept[i].ocp # 0
(* Giving a compiled problem makes the names of methods irrelevant. *)
Irrelevant == \A b \in DOMAIN kept : \A m \in Methods, c \in ControlMethods :
    LET r == [cpus |-> 1, ocp |-> 1, bvp |-> b, maps |-> "both", method |-> m, cm |-> c, mspell |-> "lower", cspell |-> "lower", jac |-> FALSE]
    IN  Reasons(r, kept) = {} /\ Key(r, kept) = kept[b]
=============================================================================
