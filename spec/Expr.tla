-------------------------------- MODULE Expr --------------------------------
(* Expressions of an optimal control problem as trees, with the calculus the   *)
(* necessary conditions need.  A tree is one of                                *)
(*   <<"n",k>> <<"pi">> <<"v",name>>                                           *)
(*   <<"+",a,b>> <<"*",a,b>> <<"/",a,b>> <<"^",a,k>>                           *)
(*   <<"sin",a>> <<"cos",a>> <<"exp",a>> <<"asin",a>> (asin only in mappings)  *)
(*   <<"call",f,orders,args>>  the derivative, of the given order in each        *)
(*                             argument, of a tabulated or custom function f   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Num(k)  == <<"n", k>>
Var(x)  == <<"v", x>>
Zero    == Num(0)
One     == Num(1)
IsNum(e) == e[1] = "n"
IsZero(e) == e[1] = "n" /\ e[2] = 0
IsOne(e)  == e[1] = "n" /\ e[2] = 1

Add(a, b) == IF IsZero(a) THEN b ELSE IF IsZero(b) THEN a
             ELSE IF IsNum(a) /\ IsNum(b) THEN Num(a[2] + b[2]) ELSE <<"+", a, b>>
Mul(a, b) == IF IsZero(a) \/ IsZero(b) THEN Zero
             ELSE IF IsOne(a) THEN b ELSE IF IsOne(b) THEN a
             ELSE IF IsNum(a) /\ IsNum(b) THEN Num(a[2] * b[2]) ELSE <<"*", a, b>>
Neg(a)    == Mul(Num(-1), a)
Sub(a, b) == Add(a, Neg(b))
Div(a, b) == IF IsZero(a) THEN Zero ELSE IF IsOne(b) THEN a ELSE <<"/", a, b>>
Pow(a, k) == IF k = 0 THEN One ELSE IF k = 1 THEN a ELSE <<"^", a, k>>
Sin(a)    == IF IsZero(a) THEN Zero ELSE IF a[1] = "asin" THEN a[2] ELSE <<"sin", a>>
Asin(a)   == <<"asin", a>>
Cos(a)    == IF IsZero(a) THEN One ELSE <<"cos", a>>
Exp(a)    == IF IsZero(a) THEN One ELSE <<"exp", a>>
Pi        == <<"pi">>

Call(f, orders, args) == <<"call", f, orders, args>>

RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN Zero ELSE Add(s[1], Sum(Tail(s)))

RECURSIVE Free(_)
Free(e) ==
    CASE e[1] \in {"n", "pi"} -> {}
      [] e[1] = "v" -> {e[2]}
      [] e[1] \in {"+", "*", "/"} -> Free(e[2]) \cup Free(e[3])
      [] e[1] = "call" -> UNION {Free(e[4][i]) : i \in DOMAIN e[4]}
      [] OTHER -> Free(e[2])

(* Partial derivative. *)
RECURSIVE D(_, _)
D(e, x) ==
    CASE e[1] \in {"n", "pi"} -> Zero
      [] e[1] = "v" -> IF e[2] = x THEN One ELSE Zero
      [] e[1] = "+" -> Add(D(e[2], x), D(e[3], x))
      [] e[1] = "*" -> Add(Mul(D(e[2], x), e[3]), Mul(e[2], D(e[3], x)))
      [] e[1] = "/" -> Sub(Div(D(e[2], x), e[3]), Div(Mul(e[2], D(e[3], x)), Pow(e[3], 2)))
      [] e[1] = "^" -> Mul(Mul(Num(e[3]), Pow(e[2], e[3] - 1)), D(e[2], x))
      [] e[1] = "sin" -> Mul(Cos(e[2]), D(e[2], x))
      [] e[1] = "cos" -> Neg(Mul(Sin(e[2]), D(e[2], x)))
      [] e[1] = "exp" -> Mul(e, D(e[2], x))
      [] e[1] = "call" -> Sum([i \in DOMAIN e[4] |-> Mul(Call(e[2], [e[3] EXCEPT ![i] = @ + 1], e[4]), D(e[4][i], x))])

(* Simultaneous substitution of the variables in DOMAIN f. *)
RECURSIVE Subst(_, _)
Subst(e, f) ==
    CASE e[1] \in {"n", "pi"} -> e
      [] e[1] = "v" -> IF e[2] \in DOMAIN f THEN f[e[2]] ELSE e
      [] e[1] = "+" -> Add(Subst(e[2], f), Subst(e[3], f))
      [] e[1] = "*" -> Mul(Subst(e[2], f), Subst(e[3], f))
      [] e[1] = "/" -> Div(Subst(e[2], f), Subst(e[3], f))
      [] e[1] = "^" -> Pow(Subst(e[2], f), e[3])
      [] e[1] = "sin" -> Sin(Subst(e[2], f))
      [] e[1] = "cos" -> Cos(Subst(e[2], f))
      [] e[1] = "exp" -> Exp(Subst(e[2], f))
      [] e[1] = "asin" -> Asin(Subst(e[2], f))
      [] e[1] = "call" -> Call(e[2], e[3], [i \in DOMAIN e[4] |-> Subst(e[4][i], f)])

-----------------------------------------------------------------------------
(* Meaning of a tree: its value in a prime field, with sin, cos, exp           *)
(* interpreted by fixed functions.  Two trees that are equal up to the field   *)
(* laws have equal values; unequal ones differ at a random point with          *)
(* probability about 1 - degree/P.                                             *)
P == 32003

RECURSIVE PowMod(_, _)
PowMod(b, k) == IF k = 0 THEN 1
                ELSE LET h == PowMod(b, k \div 2)
                         h2 == (h * h) % P
                     IN  IF k % 2 = 1 THEN (h2 * b) % P ELSE h2
Inv(x) == PowMod(x, P - 2)
Fn(k, x) == LET a == (x * x) % P
                b == (a * x) % P
                c == (b * (7919 + k)) % P
                d == (a * (13 * k + 5)) % P
                g == (x * (101 * k + 3)) % P
            IN  (c + d + g) % P

(* Functions are told apart by the length of their names. *)
FnCall(f, orders, vals) ==
    LET RECURSIVE Mix(_)
        Mix(i) == IF i = 0 THEN Len(f) * 977 ELSE ((Mix(i - 1) * 31) + orders[i]) % P
        RECURSIVE Arg(_)
        Arg(i) == IF i = 0 THEN 0 ELSE ((Arg(i - 1) * 57) + vals[i]) % P
    IN  Fn(4 + (Mix(Len(orders)) % 300), Arg(Len(vals)))

RECURSIVE Eval(_, _)
Eval(e, env) ==
    CASE e[1] = "n" -> e[2] % P
      [] e[1] = "pi" -> 12345
      [] e[1] = "v" -> env[e[2]]
      [] e[1] = "+" -> (Eval(e[2], env) + Eval(e[3], env)) % P
      [] e[1] = "*" -> (Eval(e[2], env) * Eval(e[3], env)) % P
      [] e[1] = "/" -> (Eval(e[2], env) * Inv(Eval(e[3], env))) % P
      [] e[1] = "^" -> PowMod(Eval(e[2], env), e[3])
      [] e[1] = "sin" -> Fn(1, Eval(e[2], env))
      [] e[1] = "cos" -> (Fn(2, Eval(e[2], env)) + (IF Eval(e[2], env) = 0 THEN 1 ELSE 0)) % P
      [] e[1] = "exp" -> (Fn(3, Eval(e[2], env)) + (IF Eval(e[2], env) = 0 THEN 1 ELSE 0)) % P
      [] e[1] = "call" -> FnCall(e[2], e[3], [i \in DOMAIN e[4] |-> Eval(e[4][i], env)])
=============================================================================
