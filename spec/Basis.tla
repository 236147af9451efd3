-------------------------------- MODULE Basis --------------------------------
(* The one-dimensional basis families, their derivatives and linearization,  *)
(* and the positive bijectors.  A basis is a record                          *)
(*   [t |-> "prob" | "phys" | "hf", nrm |-> BOOLEAN, lb, ub |-> floats].     *)
(* BVal(b,n,x), BDer(b,n,x), BDer2(b,n,x) are the values, first and second   *)
(* derivatives of the basis functions 0..n at x, as sequences of length n+1. *)
EXTENDS Float, TLC

MaxOrder == 24
FPi == FDec("3.14159265358979323846")

RECURSIVE FactRec(_)
FactRec(s) == IF Len(s) > MaxOrder THEN s ELSE FactRec(Append(s, FMul(s[Len(s)], FI(Len(s)))))
FFact == FactRec(<<F1>>)                                   \* FFact[k+1] = k!
ProbNorm == Vec([k \in 1..MaxOrder+1 |-> FSqrt(FMul(FSqrt(FMul(F2, FPi)), FFact[k]))])
PhysNorm == Vec([k \in 1..MaxOrder+1 |-> FSqrt(FMul(FMul(FSqrt(FPi), FPowI(F2, k-1)), FFact[k]))])

(* Three-term recurrences: He_{k} = x He_{k-1} - (k-1) He_{k-2}, and the      *)
(* physicists' version.  The result is not normalized.                        *)
RECURSIVE PolyRec(_, _, _, _)
PolyRec(t, n, x, s) ==
  IF Len(s) > n THEN SubSeq(s, 1, n + 1)
  ELSE LET k == Len(s)
           c == IF t = "phys" THEN F2 ELSE F1
       IN PolyRec(t, n, x, Append(s, FMul(c, FSub(FMul(x, s[k]), FMul(FI(k-1), s[k-1])))))
PolyRaw(t, n, x) == PolyRec(t, n, x, <<F1, IF t = "phys" THEN FMul(F2, x) ELSE x>>)

Normed(b, s) == IF ~b.nrm THEN s
                ELSE Vec([k \in 1..Len(s) |-> FDiv(s[k], IF b.t = "phys" THEN PhysNorm[k] ELSE ProbNorm[k])])
DScale(t) == IF t = "phys" THEN F2 ELSE F1
(* d/dx He_k = k He_{k-1};  d/dx H_k = 2 k H_{k-1}. *)
PolyD(t, s) == Vec([k \in 1..Len(s) |-> IF k = 1 THEN F0 ELSE FMul(FMul(DScale(t), FI(k-1)), s[k-1])])

(* Hermite functions: 1, x, then the orthonormal physicists' functions h_0, h_1, ... *)
RECURSIVE HRec(_, _, _)
HRec(n, x, s) ==      \* s = <<h_0, ..., >> up to h_n
  IF Len(s) > n THEN SubSeq(s, 1, n + 1)
  ELSE LET k == Len(s) IN
       HRec(n, x, Append(s, FSub(FMul(FMul(FSqrt(FDiv(F2, FI(k))), x), s[k]), FMul(FSqrt(FDiv(FI(k-1), FI(k))), s[k-1]))))
H0(x) == FDiv(FExp(FMul(FNeg(FHalf), FMul(x, x))), FSqrt(FSqrt(FPi)))
HRaw(n, x) == IF n < 0 THEN <<>> ELSE HRec(n, x, <<H0(x), FMul(FMul(FSqrt(F2), x), H0(x))>>)
HDer(n, x) == LET h == HRaw(n + 1, x) IN       \* h_k' = sqrt(k/2) h_{k-1} - sqrt((k+1)/2) h_{k+1}
   Vec([i \in 1..n+1 |-> LET k == i - 1 IN
        FSub(IF k = 0 THEN F0 ELSE FMul(FSqrt(FDiv(FI(k), F2)), h[k]), FMul(FSqrt(FDiv(FI(k+1), F2)), h[k+2]))])
HDer2(n, x) == LET h == HRaw(n, x) IN          \* h_k'' = (x^2 - 2k - 1) h_k
   Vec([i \in 1..n+1 |-> FMul(FSub(FMul(x, x), FI(2*(i-1) + 1)), h[i])])

(* Without linearization. *)
RVal(b, n, x) == IF b.t = "hf" THEN (IF n = 0 THEN <<F1>> ELSE <<F1, x>>) \o HRaw(n - 2, x)
                 ELSE Normed(b, PolyRaw(b.t, n, x))
RDer(b, n, x) == IF b.t = "hf" THEN (IF n = 0 THEN <<F0>> ELSE <<F0, F1>>) \o (IF n < 2 THEN <<>> ELSE HDer(n - 2, x))
                 ELSE Normed(b, PolyD(b.t, PolyRaw(b.t, n, x)))
RDer2(b, n, x) == IF b.t = "hf" THEN (IF n = 0 THEN <<F0>> ELSE <<F0, F0>>) \o (IF n < 2 THEN <<>> ELSE HDer2(n - 2, x))
                  ELSE Normed(b, PolyD(b.t, PolyD(b.t, PolyRaw(b.t, n, x))))

(* Linearized: below lb and above ub each function continues along its tangent. *)
Tangent(b, n, p, x) == LET v == RVal(b, n, p)  d == RDer(b, n, p)  h == FSub(x, p)
                       IN Vec([k \in 1..n+1 |-> FAdd(v[k], FMul(d[k], h))])
BVal(b, n, x) == IF FLt(x, b.lb) THEN Tangent(b, n, b.lb, x)
                 ELSE IF FLt(b.ub, x) THEN Tangent(b, n, b.ub, x) ELSE RVal(b, n, x)
BDer(b, n, x) == IF FLt(x, b.lb) THEN RDer(b, n, b.lb)
                 ELSE IF FLt(b.ub, x) THEN RDer(b, n, b.ub) ELSE RDer(b, n, x)
BDer2(b, n, x) == IF FLt(x, b.lb) \/ FLt(b.ub, x) THEN VZero(n + 1) ELSE RDer2(b, n, x)
Linearized(b) == FIsFinite(b.lb) \/ FIsFinite(b.ub)

(* Positive bijectors and their derivatives. *)
Expit(x) == IF FLt(x, F0) THEN FDiv(FExp(x), FAdd(F1, FExp(x))) ELSE FDiv(F1, FAdd(F1, FExp(FNeg(x))))
Pos(p, x)  == IF p = "exp" THEN FExp(x) ELSE FAdd(FMax(x, F0), FLog1p(FExp(FNeg(FAbs(x)))))
PosD(p, x) == IF p = "exp" THEN FExp(x) ELSE Expit(x)
PosDD(p, x) == IF p = "exp" THEN FExp(x) ELSE FMul(Expit(x), Expit(FNeg(x)))
PosInv(p, y) == IF p = "exp" THEN FLog(y) ELSE FAdd(y, FLog(FNeg(FExpm1(FNeg(y)))))

(* Clenshaw-Curtis rules on [-1,1], and an 8-point Gauss-Legendre rule. *)
CCPts(n) == IF n = 1 THEN <<F0>> ELSE Vec([i \in 1..n |-> FNeg(FCos(FDiv(FMul(FI(i-1), FPi), FI(n-1))))])
CCWts(n) ==
  IF n = 1 THEN <<F2>> ELSE
  Vec([i \in 1..n |->
    LET th == FDiv(FMul(FI(i-1), FPi), FI(n-1))
        w == FSub(F1, FSum([j \in 1..((n-1) \div 2) |->
               FDiv(FMul(IF 2*j = n-1 THEN F1 ELSE F2, FCos(FMul(FI(2*j), th))), FI(4*j*j - 1))]))
    IN FDiv(FMul(IF i = 1 \/ i = n THEN F1 ELSE F2, w), FI(n-1))])
MaxCC == 33
CCTab == Vec([n \in 1..MaxCC |-> <<CCPts(n), CCWts(n)>>])
GLx == <<FDec("-0.96028985649753623168"), FDec("-0.79666647741362673959"), FDec("-0.52553240991632898582"), FDec("-0.18343464249564980494"),
         FDec("0.18343464249564980494"), FDec("0.52553240991632898582"), FDec("0.79666647741362673959"), FDec("0.96028985649753623168")>>
GLw == <<FDec("0.10122853629037625915"), FDec("0.22238103445337447054"), FDec("0.31370664587788728734"), FDec("0.36268378337836198297"),
         FDec("0.36268378337836198297"), FDec("0.31370664587788728734"), FDec("0.22238103445337447054"), FDec("0.10122853629037625915")>>
=============================================================================
