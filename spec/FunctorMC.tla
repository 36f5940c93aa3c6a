----------------------------- MODULE FunctorMC -----------------------------
(* All histories of up to Depth compositions of three elementary              *)
(* transformations, with the laws of composition; histories of full length    *)
(* are emitted for replay.                                                    *)
EXTENDS Functor, Json, IOUtils, TLC
CONSTANTS Depth, MaxWord

Atoms == << << "a" >>, << "b" >>, << >> >>       \* register 3 is the identity
OutDir == IOEnv.OUTDIR

VARIABLES regs, ops
vars == << regs, ops >>
Init == regs = Atoms /\ ops = << >>

Op(o) == /\ Len(ops) < Depth
         /\ Len(NewWord(regs, o)) <= MaxWord
         /\ regs' = Step(regs, o)
         /\ ops' = Append(ops, o)
Bin == \E i \in DOMAIN regs, j \in DOMAIN regs, op \in {"*", "<<", ">>"}, b \in {FALSE, TRUE} :
          \* use what was composed last, so that histories build on one another
          /\ (ops # << >> => i = Len(regs) \/ j = Len(regs) \/ (ops[Len(ops)].inplace /\ (i = ops[Len(ops)].i \/ j = ops[Len(ops)].i)))
          /\ Op([op |-> op, i |-> i, j |-> j, n |-> 0, inplace |-> b])
Pow == \E i \in DOMAIN regs, n \in 0 .. 3, b \in {FALSE, TRUE} :
          /\ (ops # << >> => i = Len(regs))
          /\ Op([op |-> "**", i |-> i, j |-> 1, n |-> n, inplace |-> b])
Next == Bin \/ Pow
Spec == Init /\ [][Next]_vars

(* Laws. *)
W == {regs[i] : i \in DOMAIN regs}
Associative == \A x \in W, y \in W, z \in W : \A op \in {"*", "<<", ">>"} :
                  Combine(op, Combine(op, x, y), z) = Combine(op, x, Combine(op, y, z))
Identity == \A x \in W : \A op \in {"*", ">>"} : Combine(op, x, << >>) = x /\ Combine(op, << >>, x) = x
Mirror == \A x \in W, y \in W : Combine(">>", x, y) = Combine("*", y, x)
Powers == \A x \in W : Power(x, 0) = << >> /\ Power(x, 1) = x /\ Power(x, 3) = Combine("*", Power(x, 2), x)
(* The untouched registers are what they were. *)
Frame == [][\A i \in DOMAIN regs : regs'[i] = regs[i] \/ (ops'[Len(ops')].inplace /\ ops'[Len(ops')].i = i)]_vars

Emit == (Len(ops) = Depth /\ OutDir # "") =>
          Serialize(ToJson([ops |-> ops]) \o "\n", OutDir \o "/hist.ndjson",
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
=============================================================================
