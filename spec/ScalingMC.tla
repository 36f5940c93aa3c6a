------------------------------ MODULE ScalingMC ------------------------------
(* Every choice of units and sizes, and every history of cases: scaling is     *)
(* transparent.  Emits the scenarios the harness replays.                      *)
EXTENDS Scaling, Json, IOUtils
CONSTANTS Dims, Moves, Depth
OutDir == IOEnv.OUTDIR
DimsSmall == {<< 1, 0, 0 >>, << 0, 1, 0 >>, << 2, -1, 0 >>}
DimsBig == {<< 1, 0, 0 >>, << 0, 1, 0 >>, << 0, 0, 1 >>, << 2, -1, 0 >>, << 1, 1, -1 >>, << 0, 0, 0 >>}
MovesSmall == {-1, 2}
MovesBig == {-2, 0, 3}

R(text, base, pow) == [text |-> text, base |-> base, pow |-> pow]
Empty == [x |-> 0]
MRefs == {R("1", 0, Empty), R("x", 0, [x |-> 1]), R("xf", 0, [xf |-> 1])}
SRefs == {R("4", 2, Empty), R("x/v", 0, [x |-> 1, v |-> -1]), R("t", 0, [t |-> 1])}
KRefs == {R("M", 0, [M |-> 1]), R("1/2", -1, Empty), R("2*xf/tf", 1, [xf |-> 1, tf |-> -1])}
Configs == [x : Dims, t : Dims, M : Dims, c : Dims,
            method : {"traditional"}, control : {"differential"},
            ineq : {"none"}, red : BOOLEAN, refs : MRefs \X SRefs \X KRefs]
Refd == {"x", "v", "t", "M", "xf", "tf"}
MagInit == [x |-> 1, v |-> -2, t |-> 3, M |-> 2, xf |-> 0, tf |-> 1]

First == CHOOSE c \in Configs : TRUE
VARIABLES cfg, mag, plain, hist, ret
vars == << cfg, mag, plain, hist, ret >>
Init == cfg \in Configs /\ mag = MagInit /\ plain = MagInit /\ hist = << >> /\ ret = << MagInit, MagInit >>
(* A case: constants of the case, then solve.  What is returned is carried     *)
(* back whether or not it converged; only a converged one is a later guess.    *)
Case(dxf, dx, dv, ok) ==
    LET set(g) == [g EXCEPT !.xf = @ + dxf]
        move == [x |-> dx, v |-> dv]
        g == set(mag)
    IN  /\ ret' = << TakeBack(cfg, g, Solved(Hand(cfg, g), move)), Solved(set(plain), move) >>
        /\ IF ok THEN mag' = ret'[1] /\ plain' = ret'[2] ELSE UNCHANGED << mag, plain >>
        /\ hist' = Append(hist, [dxf |-> dxf, dx |-> dx, dv |-> dv, ok |-> ok])
        /\ UNCHANGED cfg
Next == /\ Len(hist) < Depth
        /\ \E dx \in Moves, dv \in Moves, ok \in BOOLEAN :
               (hist = << >> => ok) /\ Case(IF hist = << >> THEN 0 ELSE 1, dx, dv, ok)
Spec == Init /\ [][Next]_vars

Transparent == mag = plain /\ ret[1] = ret[2]
UnitsMatch == Consistent(cfg)
(* The dynamics mean the same in scaled variables: factor of a rate times the duration is the factor of the state. *)
Covariant ==
    LET f(u) == Factor(u, Sizes(cfg, mag))
        U == UnitOf(cfg)
    IN  /\ f(U.v) + f(U.t) = f(U.x)
        /\ f(U.F) - f(U.M) + f(U.t) = f(U.v)
        /\ f(U.W) + 2 * f(U.F) + f(U.t) = f(cfg.c)
        /\ \A i \in DOMAIN Internal(cfg).states : TRUE
(* The histories are the same for every configuration: emitted once. *)
Emit == (Len(hist) = Depth /\ OutDir # "" /\ cfg = First) =>
    Serialize(ToJson([hist |-> hist]) \o "\n", OutDir \o "/hist.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
=============================================================================
