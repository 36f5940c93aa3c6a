------------------------------- MODULE GuessMC -------------------------------
(* A generator over a history of setups and uses.                              *)
EXTENDS Guess, Json, IOUtils
CONSTANTS Vals, Depth
OutDir == IOEnv.OUTDIR
ValsSmall == {-1, 2}
ValsBig == {-2, -1, 0, 1, 3}
Problems == {p \in [type : {"energy", "two", "drift"}, control : {"differential", "algebraic"}, w : {1, 2}] :
             p.type = "two" => p.w = 1}
Q(n) == {[how |-> "default", v |-> << >>]} \cup {[how |-> "scalar", v |-> << a >>] : a \in Vals}
        \cup (IF n = 1 THEN {[how |-> "list", v |-> << a >>] : a \in Vals}
              ELSE {[how |-> "list", v |-> << a, b >>] : a \in Vals, b \in Vals})
Starts(n) == IF n = 1 THEN {<< a >> : a \in Vals} ELSE {<< a, b >> : a \in Vals, b \in Vals}
P1(a, b) == << F(a), F(b) >>
Lines(n) == IF n = 1 THEN {<< P1(a, 1) >> : a \in Vals} ELSE {<< P1(a, 1), P1(1, -a) >> : a \in Vals}
Made(p) == [mode : {"auto", "ones"}, dir : {"forward", "reverse"}, T : {1, 2}, start : Starts(NStates(p)),
            lam : Q(NStates(p)), u : Q(NControls(p))]
Own(p) == {[mode |-> "static", sol |-> s] :
             s \in [t0 : {0, 1}, T : {1, -2}, x : Lines(NStates(p)), u : Lines(NControls(p)), lam : Lines(NStates(p)),
                    lt : {P1(1, 2)}]}
Settings(p) == Made(p) \cup Own(p)
(* Also settings that must be refused. *)
Base == [mode |-> "auto", dir |-> "forward", T |-> 1, start |-> << 1 >>, lam |-> [how |-> "default", v |-> << >>],
         u |-> [how |-> "default", v |-> << >>]]
BadOnes == {[Base EXCEPT !.mode = "random"], [Base EXCEPT !.dir = "sideways"], [Base EXCEPT !.T = 0],
            [Base EXCEPT !.mode = "ones", !.dir = "back"], [Base EXCEPT !.mode = "ones", !.T = 0]}
VARIABLES prob, gen, made
vars == << prob, gen, made >>
None == [mode |-> "none"]
Init == prob \in Problems /\ gen \in Settings(prob) /\ made = << >>
Generate == Len(made) < Depth /\ made' = Append(made, Generated(prob, gen)) /\ UNCHANGED << prob, gen >>
Spec == Init /\ [][Generate]_vars
AllRefused == \A m \in BadOnes : Refused(m)
Accepted == ~Refused(gen)
Same == \A i, j \in DOMAIN made : made[i] = made[j]
Dynamics == (gen.mode = "auto" /\ made # << >>) => Obeys(prob, made[1])
Law == (prob.control = "algebraic" /\ made # << >>) => Stationary0(prob, made[1])
Starts0 == (gen.mode # "static" /\ made # << >>) =>
    /\ \A i \in DOMAIN gen.start : At(made[1].x[i], F(0)) = F(gen.start[i])
    /\ \A i \in 1 .. NStates(prob) : At(made[1].lam[i], F(0)) = Spread(gen.lam, NStates(prob))[i]
    /\ prob.control = "differential" =>
          \A i \in 1 .. NControls(prob) : At(made[1].u[i], F(0)) = Spread(gen.u, NControls(prob))[i]
Emit == (made = << >> /\ OutDir # "") =>
    Serialize(ToJson([prob |-> prob, gen |-> gen, res |-> Generated(prob, gen), dur |-> Duration(gen), clock |-> Clock(gen)]) \o "\n",
              OutDir \o "/inst.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
=============================================================================
