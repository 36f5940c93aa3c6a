------------------------------- MODULE Functor -------------------------------
(* Problem transformations compose: a transformation denotes the sequence of   *)
(* elementary ones it applies, in order of application.                        *)
(*   a * b, a << b   first b, then a                                           *)
(*   a >> b          first a, then b                                           *)
(*   a ** n          n times a (nothing for 0)                                 *)
(* Registers hold transformations; composing never changes its operands.       *)
EXTENDS Naturals, Integers, Sequences

RECURSIVE Power(_, _)
Power(w, n) == IF n = 0 THEN << >> ELSE Power(w, n - 1) \o w

Combine(op, a, b) == IF op \in {"*", "<<"} THEN b \o a ELSE a \o b

(* Effect of one operation on the registers (a sequence of words); the result  *)
(* is put in a new register.  In place forms (op =) rebind register i.         *)
NewWord(regs, o) ==
    CASE o.op = "id"  -> << >>
      [] o.op = "**"  -> Power(regs[o.i], o.n)
      [] OTHER        -> Combine(o.op, regs[o.i], regs[o.j])
Fails(o) == IF o.op = "**" /\ o.n < 0 THEN "ValueError" ELSE IF o.op = "**half" THEN "TypeError" ELSE ""
Step(regs, o) == IF Fails(o) # "" THEN regs
                 ELSE IF o.inplace THEN [regs EXCEPT ![o.i] = NewWord(regs, o)]
                 ELSE Append(regs, NewWord(regs, o))

RECURSIVE Run(_, _)
Run(regs, ops) == IF ops = << >> THEN regs ELSE Run(Step(regs, Head(ops)), Tail(ops))

-----------------------------------------------------------------------------
(* Stages of a problem.  Each transformation demands one.                      *)
(* st: [sym, dual, law, comp] booleans, plus what is left to consume.          *)
Stage0 == [sym |-> FALSE, dual |-> FALSE, law |-> FALSE, utm |-> 1, trig |-> 1]
Kinds == {"Sympify", "ApplyQuantities", "MomentumShift", "EpsTrig", "UTM", "RASHS", "Dualize", "DifferentialControlLaw",
          "AlgebraicControlLaw", "NormalizeTime", "CompileProblem"}
(* "" or the error of applying transformation k to a problem at stage st. *)
Refusal(k, st) ==
    IF k \in {"ApplyQuantities", "MomentumShift", "EpsTrig", "UTM", "RASHS", "Dualize", "NormalizeTime", "CompileProblem"}
       /\ ~st.sym THEN "ValueError"
    ELSE IF k \in {"DifferentialControlLaw", "AlgebraicControlLaw"} /\ ~st.dual THEN "ValueError"
    ELSE IF k = "UTM" /\ st.utm = 0 THEN "RuntimeWarning"
    ELSE IF k = "EpsTrig" /\ st.trig = 0 THEN "RuntimeWarning"
    ELSE ""
Advance(k, st) ==
    CASE k = "Sympify" -> [st EXCEPT !.sym = TRUE]
      [] k = "Dualize" -> [st EXCEPT !.dual = TRUE]
      [] k = "UTM"     -> [st EXCEPT !.utm = @ - 1]
      [] k = "EpsTrig" -> [st EXCEPT !.trig = @ - 1]
      [] k \in {"DifferentialControlLaw", "AlgebraicControlLaw"} -> [st EXCEPT !.law = TRUE]
      [] OTHER -> st
(* Sequences that make sense to try: each kind at most once, nothing after compiling. *)
RECURSIVE Outcome(_, _)
Outcome(word, st) ==
    IF word = << >> THEN [out |-> "", st |-> st]
    ELSE LET r == Refusal(Head(word), st) IN
         IF r # "" THEN [out |-> r, st |-> st] ELSE Outcome(Tail(word), Advance(Head(word), st))
=============================================================================
