------------------------------- MODULE FlowMC --------------------------------
(* A propagator used over a history of legs: group property of the flow,       *)
(* additivity of quadratures, meshes.  Emits the histories of legs.            *)
EXTENDS Flow, Json, IOUtils
CONSTANTS Vals, Legs, Depth
OutDir == IOEnv.OUTDIR
ValsSmall == {-2, 1}
ValsBig == {-2, 0, 1, 3}
LegsSmall == {-7, 3, 13}
LegsBig == {-13, -7, -1, 1, 3, 6, 12, 13}
VARIABLES p, c, st0, st, leg, legs
vars == << p, c, st0, st, leg, legs >>
Init == /\ p \in Vals /\ c \in Vals
        /\ \E a \in Vals, b \in Vals : st0 = Start(a, b, 1, 0)
        /\ st = st0 /\ leg = 0 /\ legs = << >>
Go(T) == st' = Flow(st, p, c, T) /\ leg' = leg + T /\ legs' = Append(legs, T) /\ UNCHANGED << p, c, st0 >>
Next == Len(legs) < Depth /\ \E T \in Legs : Go(T)
Spec == Init /\ [][Next]_vars
Group == st = Flow(st0, p, c, leg)
Back == Flow(st, p, c, -leg) = st0
Additive == \A T \in Legs : Quad(p, c, 0, leg) + Quad(p, c, leg, leg + T) = Quad(p, c, 0, leg + T)
Meshes == \A T \in Legs, h \in {1, 2, 5} :
    LET m == Fixed(leg, leg + T, h) IN
        /\ m[1] = leg /\ m[Len(m)] = leg + T
        /\ \A i \in 1 .. Len(m) - 1 : Sgn(T) * (m[i + 1] - m[i]) \in 1 .. h
Emit == (Len(legs) = Depth /\ OutDir # "" /\ st0 = Start(1, 1, 1, 0) /\ p = 1 /\ c = 1) =>
    Serialize(ToJson([legs |-> legs]) \o "\n", OutDir \o "/legs.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
=============================================================================
