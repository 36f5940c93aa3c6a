------------------------------- MODULE StoreMC -------------------------------
EXTENDS Store, Json, IOUtils
CONSTANTS MaxOps, Files, PartSets, Whats
OutDir == IOEnv.OUTDIR
PartsAll == {{"solutions"}, {"ocp"}, {"solutions", "ocp", "bvp"}, {"solutions", "bvp"}, {}}
PartsFew == {{"solutions"}, {"solutions", "ocp", "bvp"}, {}}
VARIABLES s, hist, phase
vars == << s, hist, phase >>
Init == s = S0 /\ hist = << >> /\ phase = "go"
V == 10 + Len(hist)                         \* a number not used before
Op(o) == o @@ [f |-> "", parts |-> {}, what |-> "", i |-> 0, v |-> V]
Ops == {Op([op |-> "save", f |-> f, parts |-> p]) : f \in Files, p \in PartSets}
       \cup {Op([op |-> "load", f |-> f]) : f \in Files}
       \cup {Op([op |-> "touch", what |-> w, i |-> i]) : w \in Whats, i \in 0 .. 2}
       \cup {Op([op |-> "solve", f |-> f]) : f \in Files \cup {""}}
Enabled(o) == (o.op = "touch" => CanTouch(s, o)) /\ (o.op = "load" => Len(s.loaded) < 3)
Do == /\ phase = "go" /\ Len(hist) < MaxOps
      /\ \E o \in {x \in Ops : Enabled(x)} : s' = Step(s, o) /\ hist' = Append(hist, o)
      /\ UNCHANGED phase
Finish == /\ phase = "go" /\ Len(hist) = MaxOps /\ phase' = "done"
          /\ IF OutDir # "" THEN /\ TLCSet(7, TLCGet(7) + 1)
                                 /\ JsonSerialize(OutDir \o "/" \o ToString(TLCGet(7)) \o ".json", hist)
             ELSE TRUE
          /\ UNCHANGED << s, hist >>
Spec == Init /\ TLCSet(7, 0) /\ [][Do \/ Finish]_vars

(* A file changes only by saving to it, and then holds exactly the parts asked for. *)
FilesStable == [][phase' = phase =>
    \A f \in DOMAIN s.files : f \in DOMAIN s'.files /\ (s'.files[f] = s.files[f] \/ hist'[Len(hist')].f = f)]_vars
(* The live object and the loaded ones change only when they themselves are touched, or by solving. *)
Separate == [][phase' = phase =>
    LET o == hist'[Len(hist')] IN
    /\ s'.live # s.live => (o.op = "touch" /\ o.i = 0) \/ o.op = "solve"
    /\ \A i \in DOMAIN s.loaded : s'.loaded[i] # s.loaded[i] => o.op = "touch" /\ o.i = i]_vars
(* Loading right after saving gives back what was saved. *)
RoundTrip == [][phase' = phase =>
    LET o == hist'[Len(hist')] IN
    o.op = "save" => \A p \in o.parts : Step(s', [op |-> "load", f |-> o.f]).loaded[Len(s'.loaded) + 1][p] = Get(s'.live, p)]_vars
=============================================================================
