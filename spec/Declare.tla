------------------------------- MODULE Declare -------------------------------
(* Problem objects and the declarations made on them.                          *)
(*   object      the accepted declarations, in order                           *)
(*   declaration [k |-> kind, n |-> << names it claims >>, ...]                *)
(* A name can be claimed once per object, whatever the kinds; a declaration    *)
(* that is refused leaves the object as it was.  Solving reads an object and   *)
(* never changes it; a copy is an object of its own.                           *)
EXTENDS Indirect

Reserved == {"_t"}                                 \* the default independent variable
Claims(d) == RangeOf(d.n)
Used(o) == Reserved \cup UNION {Claims(o[i]) : i \in DOMAIN o}
Refused(o, d) == IF Claims(d) \cap Used(o) # {} THEN "RuntimeWarning"
                 ELSE IF d.k = "badconstant" THEN "ValueError"
                 ELSE IF d.k = "badtable" THEN "NotImplementedError" ELSE ""
Declared(o, d) == IF Refused(o, d) = "" THEN Append(o, d) ELSE o

-----------------------------------------------------------------------------
(* The problem an object stands for (as in Indirect). *)
Of(o, k) == SelectSeq(o, LAMBDA d : d.k = k)
Last1(s, default) == IF s = << >> THEN default ELSE s[Len(s)]
(* Cost terms: the last one given; setcost gives all three. *)
CostTerm(o, k) == LET s == SelectSeq(o, LAMBDA d : d.k \in {k, "setcost"})
                  IN  IF s = << >> THEN Zero ELSE IF s[Len(s)].k = k THEN s[Len(s)].e ELSE s[Len(s)][k]
ProblemOf(o) ==
    [name |-> "declared",
     ind |-> LET s == Of(o, "independent") IN IF s = << >> THEN "_t" ELSE s[Len(s)].n[1],
     states |-> LET s == Of(o, "state") IN [i \in DOMAIN s |-> [n |-> s[i].n[1], f |-> s[i].e]],
     controls |-> LET s == Of(o, "control") IN [i \in DOMAIN s |-> s[i].n[1]],
     consts |-> LET s == Of(o, "constant") IN [i \in DOMAIN s |-> [n |-> s[i].n[1], v |-> s[i].v]],
     quants |-> LET s == Of(o, "quantity") IN [i \in DOMAIN s |-> [n |-> s[i].n[1], e |-> s[i].e]],
     switches |-> LET s == Of(o, "switch") IN [i \in DOMAIN s |-> [n |-> s[i].n[1], fns |-> s[i].fns,
                                                                 conds |-> s[i].conds, tol |-> s[i].tol]],
     L |-> CostTerm(o, "path"), Phi0 |-> CostTerm(o, "initial"), Phif |-> CostTerm(o, "terminal"),
     psi0 |-> LET s == Of(o, "psi0") IN [i \in DOMAIN s |-> s[i].e],
     psif |-> LET s == Of(o, "psif") IN [i \in DOMAIN s |-> s[i].e],
     ineq |-> LET s == Of(o, "ineq") IN [i \in DOMAIN s |-> [loc |-> s[i].loc, e |-> s[i].e, lo |-> s[i].lo, hi |-> s[i].hi,
                                                             act |-> s[i].act, m |-> s[i].m]]]

(* Solving an object: "" or why it is refused. *)
Constants(o) == {d.n[1] : d \in RangeOf(Of(o, "constant"))}
Unsolvable(o) == IF Of(o, "state") = << >> THEN "RuntimeError"
                 ELSE IF \E d \in RangeOf(Of(o, "ineq")) : d.m = "utm" /\ d.act \notin Constants(o) THEN "Exception" ELSE ""

-----------------------------------------------------------------------------
V(x) == Var(x)
X(k, names, e) == [k |-> k, n |-> names, e |-> e]
Constant(name, v) == [k |-> "constant", n |-> << name >>, v |-> v]
Plain(k, names) == [k |-> k, n |-> names]
Switch(name, f, c, tol) == [k |-> "switch", n |-> << name >>, fns |-> f, conds |-> c, tol |-> tol]

(* The problem to be declared: every item once, in any order. *)
Items == <<
    Plain("independent", << "t" >>),
    X("state", << "x" >>, Mul(V("v"), V("k"))),
    X("state", << "v" >>, Add(Add(V("u"), V("q")), V("w"))),
    Plain("control", << "u" >>),
    Constant("k", 2),
    Constant("a", 3),
    X("quantity", << "q" >>, Sub(Mul(V("x"), V("k")), V("r"))),
    X("quantity", << "r" >>, Mul(V("v"), V("a"))),
    Switch("w", << V("x"), V("r") >>, << << Sub(V("x"), V("a")) >>, << Sub(V("a"), V("x")) >> >>, "k"),
    X("path", << >>, Add(Pow(V("u"), 2), Mul(V("x"), V("v")))),
    X("terminal", << >>, Mul(V("x"), V("a"))),
    X("psi0", << >>, Sub(V("x"), V("k"))),
    X("psi0", << >>, V("t")),
    X("psif", << >>, Sub(V("x"), Mul(V("a"), V("t")))),
    [k |-> "ineq", n |-> << >>, loc |-> "path", e |-> V("v"), lo |-> Neg(V("a")), hi |-> V("a"), act |-> "k", m |-> "utm"],
    Plain("unit", << "m" >>),
    (* a problem without abbreviations *)
    X("state", << "v" >>, Add(V("u"), Mul(V("a"), V("v")))),
    [k |-> "ineq", n |-> << >>, loc |-> "path", e |-> V("u"), lo |-> Neg(V("a")), hi |-> Mul(V("a"), V("k")), act |-> "k", m |-> "epstrig"],
    X("psif", << >>, Sub(V("v"), V("k"))),
    (* several bounds on one expression *)
    [k |-> "ineq", n |-> << >>, loc |-> "terminal", e |-> V("v"), lo |-> Neg(V("a")), hi |-> V("a"), act |-> "k", m |-> "utm"],
    [k |-> "ineq", n |-> << >>, loc |-> "terminal", e |-> V("v"), lo |-> Neg(V("a")), hi |-> Mul(V("a"), V("k")), act |-> "a", m |-> "utm"],
    [k |-> "ineq", n |-> << >>, loc |-> "initial", e |-> V("x"), lo |-> Neg(V("a")), hi |-> V("k"), act |-> "a", m |-> "utm"],
    [k |-> "ineq", n |-> << >>, loc |-> "path", e |-> V("v"), lo |-> Neg(V("a")), hi |-> Mul(V("a"), V("k")), act |-> "k", m |-> "utm"],
    (* declared and not used *)
    Plain("table", << "T" >>),
    Plain("function", << "F" >>),
    Plain("com", << "C" >>),
    (* a value and a bound of one expression *)
    X("psi0", << >>, V("x")),
    X("psif", << >>, V("v")) >>
Bases == << ((1 .. 16) \ {12}) \cup {22, 23, 24, 25, 26, 27}, {1, 2, 4, 5, 6, 10, 11, 12, 13, 14, 16, 17, 18, 20, 21, 24, 25, 26, 28} >>

(* Other declarations a user might try, wherever they come in time. *)
Early == <<
    Constant("x", 5),
    X("state", << "k" >>, Sub(V("u"), V("x"))),
    X("quantity", << "a" >>, Add(V("k"), One)),
    Switch("r", << V("x"), V("k") >>, << << V("v") >>, << Neg(V("v")) >> >>, "k"),
    Constant("r", 4),
    Constant("w", 1),
    X("state", << "w" >>, V("u")),
    Constant("q", 2),
    X("path", << >>, Mul(Pow(V("u"), 2), V("k"))),
    X("terminal", << >>, Mul(V("v"), V("k"))),
    X("initial", << >>, Mul(V("x"), V("x"))),
    [k |-> "setcost", n |-> << >>, path |-> Pow(V("u"), 4), initial |-> Zero, terminal |-> Zero],
    [k |-> "setcost", n |-> << >>, path |-> Pow(V("u"), 2), initial |-> Zero, terminal |-> Mul(V("x"), V("v"))],
    Plain("badconstant", << "z" >>),
    Plain("badtable", << "z" >>),
    Constant("z", 1) >>
(* Only once their name is taken (they would change what the name can stand for). *)
Late == <<
    X("state", << "x" >>, V("u")), X("state", << "v" >>, Zero), Plain("control", << "u" >>), Constant("k", 7), Constant("t", 1),
    Plain("control", << "x" >>), X("quantity", << "u" >>, One), Plain("table", << "x" >>), Plain("function", << "v" >>),
    Plain("table", << "k" >>), Plain("function", << "w" >>),
    Switch("k", << One >>, << << V("x") >> >>, "a"), Plain("unit", << "u" >>), Plain("independent", << "x" >>),
    Plain("independent", << "t" >>), Constant("T", 2), X("state", << "F" >>, V("u")), Plain("control", << "T" >>),
    X("quantity", << "F" >>, V("x")), Plain("table", << "F" >>), Plain("function", << "T" >>), Plain("unit", << "F" >>),
    Plain("unit", << "z", "x" >>), Plain("unit", << "k", "z" >>), Plain("unit", << "_t" >>),
    Plain("com", << "x" >>), Plain("com", << "F" >>), Constant("C", 3), Plain("com", << "m" >>), Plain("com", << "C" >>),
    Constant("m", 1), X("state", << "m" >>, One), Plain("badconstant", << "x" >>) >>

(* Everything the problem mentions is declared. *)
Mentioned(b) == {"t", "x", "v", "u", "k", "a"} \cup (IF b = 1 THEN {"q", "r", "w"} ELSE {})
Complete(b, o, todo) == todo = {} /\ Mentioned(b) \subseteq Used(o)
=============================================================================
