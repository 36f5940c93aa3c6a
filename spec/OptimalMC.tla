------------------------------ MODULE OptimalMC ------------------------------
(* Enumerates the problems, checks that what is called the optimum is one, and *)
(* emits them; emits the configurations of the framework.                      *)
EXTENDS Optimal, Json, IOUtils, FiniteSets
CONSTANTS Ks, Ts
OutDir == IOEnv.OUTDIR
KsSmall == {-1, 0, 2}
KsBig == {-2, -1, 0, 1, 3}
Pos == {1, 2}
Data(ty) == CASE ty = "energy" -> {k \in Ks \X Ks \X Ks \X Ks \X {0, 1} \X Pos : k[1] # k[3]}
              [] ty \in {"soft", "start"} -> {k \in Ks \X Ks \X Pos \X Pos : k[1] # k[2]}
              [] ty = "free" -> {k \in Ks \X Ks \X Pos : k[1] # k[2]}
              [] ty = "two" -> {k \in Ks \X Ks : k[1] # k[2]}
              [] ty = "drift" -> {k \in Ks \X Ks \X Pos : TRUE}
Types == {"energy", "soft", "start", "free", "two", "drift"}
Insts == UNION {{[type |-> ty, k |-> d, T |-> T, t0 |-> t0] : d \in Data(ty), T \in Ts, t0 \in {0, 1}} : ty \in Types}
Configs == {c \in [method : {"traditional", "diffyg"}, control : {"differential", "algebraic"},
                   solver : {"spbvp", "shooting1", "shooting2"}, auto : BOOLEAN, jac : BOOLEAN,
                   guess : {"auto", "ones", "static"}, steps : {"none", "bisection", "product", "chained"},
                   helper : BOOLEAN, reduce : BOOLEAN] :
            /\ c.jac => c.control = "differential"
            /\ c.helper => c.steps # "none"}
VARIABLES inst, cfg
vars == << inst, cfg >>
None == [type |-> "none"]
Append2(x, f) == Serialize(ToJson(x) \o "\n", OutDir \o f,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
Init == \/ inst \in Insts /\ cfg = None
        \/ inst = None /\ cfg \in Configs
Spec == Init /\ [][FALSE]_vars
Optimal == inst # None => Stationary(inst) /\ Best(inst)
Emit == OutDir # "" => IF inst # None THEN Append2([inst |-> inst, opt |-> Optimum(inst)], "/inst.ndjson")
                       ELSE Append2(cfg, "/cfg.ndjson")
=============================================================================
