------------------------------ MODULE GeomTrace ------------------------------
EXTENDS Geom, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Report(i, S) == \A c \in S : PrintT(<< "BAD", i, c >>)
Fun == /\ E.ev = "func"
       /\ Report(l, IF E.out # "" THEN {"no differential"} ELSE (IF E.d = D0(E.p, E.x) THEN {} ELSE {"differential"})
                        \cup (IF E.dd = Zero(Len(E.x)) THEN {} ELSE {"differential of a differential"}))
Frm == /\ E.ev = "form" /\ Report(l, IF E.out # "" THEN {"no differential"} ELSE IF E.d = D1(E.f, E.x) THEN {} ELSE {"differential of a form"})
Ham == /\ E.ev = "ham" /\ Report(l, IF E.out # "" THEN {"no field"} ELSE IF E.s = 1 /\ E.v = Hamilton(E.p, E.x) THEN {} ELSE {"Hamilton's equations"})
Fld == /\ E.ev = "field" /\ Report(l, IF E.out # "" THEN {"no field"} ELSE IF E.s > 0 /\ FieldOf(E.o, E.p, E.x, E.v, E.s) THEN {} ELSE {"field"})
(* Forms that are degenerate but otherwise right are not judged. *)
Sym2(o) == Square(o) /\ Len(o) % 2 = 0 /\ Anti(o)
Smp == /\ E.ev = "symp"
       /\ Report(l, IF E.out # "" THEN {"form"} ELSE IF Sym2(E.o) THEN (IF Pfaff(E.o) = 0 \/ E.got THEN {} ELSE {"symplectic form refused"})
                    ELSE IF E.got THEN {"form accepted"} ELSE {})
Std == /\ E.ev = "std" /\ Report(l, IF E.a = E.b THEN (IF E.out = "" /\ E.o = Standard(E.a) THEN {} ELSE {"standard form"})
                                    ELSE IF E.out = "ValueError" THEN {} ELSE {"standard form"})
Tot == /\ E.ev = "total" /\ Report(l, IF E.out # "" THEN {"no total derivative"} ELSE IF E.d = Total1(E.p, E.qs, E.v, E.x) THEN {} ELSE {"total derivative"})
(* Of the derived problem: the constant of motion of a field, the one declared, and the latter's field. *)
Mom == /\ E.ev = "mom"
       /\ Report(l, IF E.out # "" THEN {"no constant of motion"}
                    ELSE (IF E.com = Momentum(E.f, E.x) THEN {} ELSE {"constant of motion"})
                         \cup (IF E.own = Eval(E.g, E.x) THEN {} ELSE {"declared constant of motion"})
                         \cup (IF E.v = Bracket(Standard(Len(E.f)), E.g, E.x) THEN {} ELSE {"field of a constant of motion"}))
Ref == E.ev = "refuse" /\ Report(l, IF E.out = E.want THEN {} ELSE {"refusal"})
Scn == E.ev = "scn"
TInit == l = 1
TNext == l <= Len(Trace) /\ (Scn \/ Fun \/ Frm \/ Ham \/ Fld \/ Smp \/ Std \/ Tot \/ Mom \/ Ref) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Consumed == PrintT(<< "CONSUMED", TLCGet("stats").diameter - 1 >>)
=============================================================================
