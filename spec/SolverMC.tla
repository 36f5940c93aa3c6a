------------------------------ MODULE SolverMC ------------------------------
(* Histories of one solver object: giving it the functions of an instance and  *)
(* solving it from some guess, in any order.                                   *)
EXTENDS Solver, Json, IOUtils
CONSTANTS Depth, Ks, NInst

OutDir == IOEnv.OUTDIR
KsSmall == {-1, 1, 2}
KsBig == {-2, -1, 0, 1, 3}
Types == {"chain", "slope", "param", "mult", "quad", "all", "many", "recip", "clash", "noreal", "almost", "steep"}
(* Constants must make the problem solvable: k1 > 0 and a positive duration. *)
Data(ty) == CASE ty \in {"chain", "slope", "mult", "clash"} -> {k \in Ks \X Ks \X Ks : k[1] # 0 /\ (ty = "clash" => k[2] # k[3])}
              [] ty = "quad"  -> {k \in Ks \X Ks \X Ks \X Ks : k[1] # 0}
              [] ty = "param" -> {k \in Ks \X Ks \X Ks \X Ks : k[1] > 0 /\ k[4] > k[3]}
              [] ty = "all"   -> {k \in Ks \X Ks \X Ks \X Ks \X {0, 2} : k[1] > 0 /\ k[4] > k[3]}
              [] ty = "many"  -> {<< a, b, c, c + d, e, f, g, h >> : a \in {1, 2}, b \in {0, 2}, c \in Ks, d \in {1, 3}, e \in {0, 2},
                                                                   f \in {0, 1}, g \in {2, 4}, h \in {1, 3}}
              [] ty = "steep" -> {<< 0, 1 >>, << 1, 1 >>, << 2, 2 >>}
              [] ty \in {"noreal", "almost"} -> {k \in Ks \X Ks : k[1] > 0}
              [] ty = "recip" -> {<< 1, 3 >>, << 1, 4 >>, << 2, 9 >>}
Insts == UNION {{[type |-> ty, k |-> d, S |-> S, t0 |-> t0] : d \in Data(ty), S \in {1, 2}, t0 \in {0, 3}} : ty \in Types}

VARIABLES inst, obj, ops
vars == << inst, obj, ops >>
(* Exact checks over all instances. *)
InitAll == inst \in Insts /\ obj = [fn |-> 0] /\ ops = << >>
SpecAll == InitAll /\ [][FALSE]_vars
AllCorrect == Correct(inst)
EmitInst == OutDir # "" =>
    Serialize(ToJson([inst |-> inst, sol |-> Solution(inst), c |-> IF inst.type = "recip" THEN RecipC(inst) ELSE F(0)]) \o "\n",
              OutDir \o "/inst.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0

(* Histories over NInst instances (numbered; the harness picks them). *)
Init == inst = << >> /\ obj = [fn |-> 0] /\ ops = << >>
Set == \E i \in 1 .. NInst : i # obj.fn /\ (ops # << >> => ops[Len(ops)].op = "solve") /\ ops' = Append(ops, [op |-> "set", inst |-> i, g |-> 0])
Solve == /\ obj.fn # 0
         /\ \E g \in 1 .. 2 : ops' = Append(ops, [op |-> "solve", inst |-> obj.fn, g |-> g])
Next == /\ Len(ops) < Depth /\ (Set \/ Solve) /\ obj' = Apply(obj, ops'[Len(ops')]) /\ UNCHANGED inst
Spec == Init /\ [][Next]_vars
(* A solve always works on the functions given last. *)
LastSet == \A i \in DOMAIN ops : ops[i].op = "solve" =>
             LET before == {j \in 1 .. i : ops[j].op = "set"} IN
             before # {} /\ ops[CHOOSE j \in before : \A h \in before : h <= j].inst = ops[i].inst
EmitHist == (Len(ops) = Depth /\ OutDir # "") =>
    Serialize(ToJson([ops |-> ops]) \o "\n", OutDir \o "/hist.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
=============================================================================
