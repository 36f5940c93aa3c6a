--------------------------- MODULE ContinuationMC ---------------------------
(* Small plans for the exhaustive exploration of Continuation, and for the     *)
(* scenarios replayed into the implementation (see harness/continuation.py,    *)
(* which builds the same plans from the JSON this module prints).              *)
EXTENDS Continuation, Json

D == 129600          \* divisible by every product of subdivisions used below
St(strat, names, targets, n, nd, maxdiv) ==
    [strat |-> strat, names |-> names, targets |-> targets, n |-> n, nd |-> nd, maxdiv |-> maxdiv,
     major |-> <<>>, minor |-> <<>>]
Sp(names, targets, major, minor) ==
    [strat |-> "sparse_product", names |-> names, targets |-> targets, n |-> 0, nd |-> 0, maxdiv |-> 0,
     major |-> major, minor |-> minor]

MCConst0 == << 10000, 20000, 30000, 40000 >>
T(c, k) == MCConst0[c] + k * D

QuickPlans == <<
    << St("manual", <<1>>, <<T(1,1)>>, 4, 2, 10) >>,
    << St("manual", <<2, 1>>, <<T(2,-1), T(1,2)>>, 3, 2, 10) >>,
    << St("bisection", <<1>>, <<T(1,1)>>, 2, 2, 1) >>,
    << St("bisection", <<1>>, <<T(1,1)>>, 3, 2, 1) >>,
    << St("bisection", <<1>>, <<T(1,-1)>>, 3, 3, 0) >>,
    << St("bisection", <<3, 1>>, <<T(3,1), T(1,-1)>>, 2, 2, 2) >>,
    << St("bisection", <<2, 4>>, <<T(2,1), T(4,3)>>, 2, 3, 1) >>,
    << St("productspace", <<1>>, <<T(1,1)>>, 3, 2, 10) >>,
    << St("productspace", <<1, 3>>, <<T(1,1), T(3,-1)>>, 2, 2, 10) >>,
    << St("productspace", <<3, 2>>, <<T(3,1), T(2,2)>>, 3, 2, 10) >>,
    << Sp(<<1, 2>>, <<T(1,1), T(2,1)>>, <<2, 2>>, <<1, 0>>) >>,
    << Sp(<<2>>, <<T(2,1)>>, <<3>>, <<1>>) >>,
    << St("manual", <<1>>, <<T(1,1)>>, 2, 2, 10), St("bisection", <<1>>, <<T(1,2)>>, 2, 2, 0) >>,
    << St("bisection", <<1>>, <<T(1,1)>>, 2, 2, 0), St("manual", <<2>>, <<T(2,1)>>, 2, 2, 10) >>,
    << St("productspace", <<1, 2>>, <<T(1,1), T(2,1)>>, 2, 2, 10), St("bisection", <<1, 2>>, <<T(1,0), T(2,0)>>, 2, 2, 0) >>,
    << St("manual", <<1>>, <<T(1,1)>>, 2, 2, 10), St("manual", <<0>>, <<T(1,1)>>, 2, 2, 10) >>,
    << St("bisection", <<2, 0>>, <<T(1,1), T(1,1)>>, 2, 2, 10) >>,
    << St("productspace", <<0>>, <<T(1,1)>>, 2, 2, 10) >>,
    << St("manual", <<1>>, <<T(1,0)>>, 2, 2, 10) >>,
    << St("manual", <<4>>, <<T(4,1)>>, 1, 2, 10), St("manual", <<4>>, <<T(4,2)>>, 3, 2, 10) >>
>>

DeepPlans == QuickPlans \o <<
    << St("bisection", <<1>>, <<T(1,1)>>, 4, 2, 1) >>,
    << St("bisection", <<1>>, <<T(1,1)>>, 3, 2, 2) >>,
    << St("bisection", <<1, 2>>, <<T(1,1), T(2,-1)>>, 4, 3, 0) >>,
    << St("bisection", <<1>>, <<T(1,1)>>, 3, 3, 1) >>,
    << St("bisection", <<2>>, <<T(2,1)>>, 2, 4, 1) >>,
    << St("bisection", <<1>>, <<T(1,1)>>, 2, 2, 3) >>,
    << St("productspace", <<1, 2, 3>>, <<T(1,1), T(2,1), T(3,1)>>, 2, 2, 10) >>,
    << St("productspace", <<4>>, <<T(4,1)>>, 7, 2, 10) >>,
    << Sp(<<1, 2>>, <<T(1,1), T(2,1)>>, <<2, 3>>, <<1, 0>>) >>,
    << St("bisection", <<1>>, <<T(1,1)>>, 2, 2, 1), St("bisection", <<2, 1>>, <<T(2,1), T(1,2)>>, 2, 2, 1) >>,
    << St("bisection", <<1>>, <<T(1,1)>>, 2, 2, 0), St("productspace", <<1, 3>>, <<T(1,2), T(3,1)>>, 2, 2, 0),
       St("manual", <<1>>, <<T(1,0)>>, 2, 2, 10) >>
>>

(* Tiny intervals: the number resolution is reached, so every run must end. *)
TermPlans == <<
    << St("bisection", <<1>>, <<10007>>, 2, 2, 1) >>,
    << St("bisection", <<1>>, <<10008>>, 3, 3, 2) >>,
    << St("bisection", <<1, 2>>, <<10005, 20003>>, 2, 2, 10) >>,
    << St("bisection", <<1>>, <<9994>>, 2, 2, 3), St("manual", <<1>>, <<10000>>, 2, 2, 3) >>,
    << St("productspace", <<1, 2>>, <<10005, 20003>>, 2, 2, 10), St("bisection", <<2>>, <<20005>>, 2, 2, 0) >>
>>

ASSUME PrintT(<< "NPLANS", Len(PlanSet) >>)
ASSUME \A i \in DOMAIN PlanSet : PrintT(<< "PLAN", ToJson(PlanSet[i]) >>)
=============================================================================
