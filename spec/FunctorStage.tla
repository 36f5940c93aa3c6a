---------------------------- MODULE FunctorStage ----------------------------
(* Every order in which up to Depth transformations can be tried on a fresh    *)
(* problem: a transformation applied at the wrong stage is refused.            *)
EXTENDS Functor, Json, IOUtils, TLC
CONSTANTS Depth
OutDir == IOEnv.OUTDIR
VARIABLES st, word, out
vars == << st, word, out >>
Init == st = Stage0 /\ word = << >> /\ out = ""
Try(k) == /\ Len(word) < Depth /\ out = ""
          /\ \A i \in DOMAIN word : word[i] # k \/ k \in {"UTM", "EpsTrig"}
          /\ ~(\E i \in DOMAIN word : word[i] = "CompileProblem")
          /\ (k \in {"Dualize", "NormalizeTime"} => TRUE)
          /\ ~(k \in {"DifferentialControlLaw", "AlgebraicControlLaw"} /\ st.law)
          /\ ~(k \in {"UTM", "EpsTrig", "RASHS", "MomentumShift", "Sympify", "Dualize"} /\ st.dual)
          /\ ~(k = "CompileProblem" /\ st.dual /\ ~st.law)
          /\ word' = Append(word, k)
          /\ out' = Refusal(k, st)
          /\ st' = IF Refusal(k, st) = "" THEN Advance(k, st) ELSE st
Next == \E k \in Kinds : Try(k)
Spec == Init /\ [][Next]_vars

TypeOK == st.utm \in 0 .. 1 /\ st.trig \in 0 .. 1
LawNeedsDual == st.law => st.dual
DualNeedsSym == st.dual => st.sym
Agrees == Outcome(word, Stage0) = [out |-> out, st |-> st]
Emit == (word # << >> /\ (out # "" \/ Len(word) = Depth) /\ OutDir # "") =>
          Serialize(ToJson([word |-> word]) \o "\n", OutDir \o "/words.ndjson",
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
=============================================================================
