------------------------------- MODULE Float -------------------------------
(* IEEE-754 binary64 arithmetic as TLA+ operators.                          *)
(*                                                                          *)
(* TLC has no real numbers.  A float is the pair <<hi, lo>> of the signed   *)
(* 32-bit halves of its bit pattern, which is also how the conformance      *)
(* drivers log it, so nothing is lost between the code and the model.  The  *)
(* primitives are evaluated by java/vf/FloatOverrides.java; the definitions *)
(* below only say what is meant.  All mathematics above the level of one    *)
(* arithmetic operation is written in TLA+ in the modules that extend this. *)
EXTENDS Integers, Sequences

LOCAL Prim(x) == CHOOSE r \in Int \X Int : TRUE   \* never evaluated

FAdd(a, b) == Prim(<<a, b>>)
FSub(a, b) == Prim(<<a, b>>)
FMul(a, b) == Prim(<<a, b>>)
FDiv(a, b) == Prim(<<a, b>>)
FNeg(a)    == Prim(a)
FAbs(a)    == Prim(a)
FMax(a, b) == Prim(<<a, b>>)
FMin(a, b) == Prim(<<a, b>>)
FSqrt(a)   == Prim(a)
FExp(a)    == Prim(a)
FLog(a)    == Prim(a)
FLog1p(a)  == Prim(a)
FExpm1(a)  == Prim(a)
FCos(a)    == Prim(a)
FPow(a, b) == Prim(<<a, b>>)
FLt(a, b)  == Prim(<<a, b>>) = a
FLe(a, b)  == Prim(<<a, b>>) = a
FEq(a, b)  == Prim(<<a, b>>) = a
FIsNaN(a)    == Prim(a) = a
FIsInf(a)    == Prim(a) = a
FIsFinite(a) == Prim(a) = a
FI(i)      == Prim(i)          \* the integer i
FFloor(a)  == CHOOSE i \in Int : TRUE
FDec(s)    == Prim(s)          \* a decimal literal, e.g. FDec("0.25")
FStr(a)    == ""               \* for messages
FClose(a, b, rtol, atol) == Prim(<<a, b, rtol, atol>>) = a
FSum(s)    == Prim(s)
FProd(s)   == Prim(s)
FDot(s, t) == Prim(<<s, t>>)   \* sum of s[i]*t[i]
FSin(a)    == Prim(a)
FErf(a)    == Prim(a)
FMaxAbs(s) == Prim(s)          \* largest absolute value, 0 for <<>>
Vec(s)     == s                \* the same sequence, evaluated once

(* Derived operators, in TLA+ proper. *)
F0 == FI(0)
F1 == FI(1)
F2 == FI(2)
FHalf == FDiv(F1, F2)
FSq(a) == FMul(a, a)
FInf == FDiv(F1, F0)

RECURSIVE FPowI(_, _)
FPowI(a, n) == IF n = 0 THEN F1 ELSE FMul(a, FPowI(a, n - 1))

VAdd(u, v) == Vec([i \in 1..Len(u) |-> FAdd(u[i], v[i])])
VSub(u, v) == Vec([i \in 1..Len(u) |-> FSub(u[i], v[i])])
VScale(a, v) == Vec([i \in 1..Len(v) |-> FMul(a, v[i])])
VZero(n) == Vec([i \in 1..n |-> F0])
VClose(u, v, rtol, atol) == /\ Len(u) = Len(v)
                            /\ \A i \in 1..Len(u) : FClose(u[i], v[i], rtol, atol)
(* M is a sequence of rows. *)
MatVec(M, v) == Vec([i \in 1..Len(M) |-> FDot(M[i], v)])
MatTVec(M, v, n) == Vec([j \in 1..n |-> FSum([i \in 1..Len(M) |-> FMul(M[i][j], v[i])])])
=============================================================================
