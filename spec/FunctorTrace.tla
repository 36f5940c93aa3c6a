---------------------------- MODULE FunctorTrace ----------------------------
(* Events: scn (kind "compose"|"stage"); op (o, out: exception or "");         *)
(* word (reg, w: what applying register reg did, in order);                    *)
(* stage (word, out)                                                           *)
EXTENDS Functor, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, regs
tvars == << l, regs >>
E == Trace[l]
Report(i, S) == \A c \in S : PrintT(<< "BAD", i, c >>)
TInit == l = 1 /\ regs = << >>
Scn == E.ev = "scn" /\ regs' = << << "a" >>, << "b" >>, << >> >>
Do == /\ E.ev = "op"
      /\ Report(l, IF E.out = Fails(E.o) THEN {} ELSE {"operation refused"})
      /\ regs' = Step(regs, E.o)
Word == /\ E.ev = "word"
        /\ Report(l, IF E.reg \in DOMAIN regs /\ regs[E.reg] = E.w THEN {} ELSE {"order of application"})
        /\ UNCHANGED regs
St == /\ E.ev = "stage"
      /\ Report(l, IF E.out = Outcome(E.word, Stage0).out THEN {} ELSE {"stage"})
      /\ UNCHANGED regs
TNext == l <= Len(Trace) /\ (Scn \/ Do \/ Word \/ St) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
Consumed == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1 >>)
=============================================================================
