------------------------------ MODULE TraceNum ------------------------------
(* Conformance of the one-dimensional numerics with Basis and Numerics. *)
EXTENDS Numerics, TraceKit

VARIABLES l
E == Trace[l]

(* Basis values: all ways of asking agree with the definition, per order. *)
R1 == FDec("1e-9")
Near(v, w) == VClose(v, w, R1, FMul(FDec("1e-10"), FAdd(FDec("1e-3"), FMaxAbs(w))))
AllNear(vs, w) == \A i \in 1..Len(vs) : Near(vs[i], w)
Close1(a, b) == FClose(a, b, R1, FDec("1e-11"))
BasisChecks(e) ==
  << <<"basis-values", AllNear(e.val, BVal(e.b, e.n, e.x))>>,
     <<"basis-derivatives", AllNear(e.der, BDer(e.b, e.n, e.x)) /\ AllNear(e.donly, BDer(e.b, e.n, e.x))>>,
     <<"basis-second-derivatives", AllNear(e.der2, BDer2(e.b, e.n, e.x))>>,
     <<"padding", e.pad>> >>

WNode(e) == [b |-> e.b, ms |-> e.ms, mo |-> MaxOrders(e.ms, e.dim), dim |-> e.dim, nc |-> Len(e.ms), nout |-> 1]
All(vs, w) == \A i \in 1..Len(vs) : FClose(vs[i], w, R1, FDec("1e-9"))
VNear(v, w) == VClose(v, w, R1, FMul(FDec("1e-10"), FAdd(F1, FMaxAbs(w))))
WorkerChecks(e) ==
  LET nd == WNode(e)  d == nd.dim
      p0 == Phi(nd, e.x, 0)  pd == Phi(nd, e.x, d)  p2 == D2Terms(nd, e.x)
      sc == FAdd(F1, FMul(FMaxAbs(e.c), FAdd(FMaxAbs(p0), FAdd(FMaxAbs(pd), FMaxAbs(p2)))))
      N(vs, w) == \A i \in 1..Len(vs) : FClose(vs[i], w, R1, FMul(FDec("1e-10"), sc))
      NV(v, w) == VClose(v, w, R1, FMul(FDec("1e-10"), sc))
  IN << <<"expansion-sizes", e.sizes = <<Len(e.ms), d>> >>,
        <<"expansion-value", N(e.f, FDot(e.c, p0))>>,
        <<"storage-independent", e.b.dense => N(e.f, FDot(e.c, Phi([nd EXCEPT !.b.dense = FALSE], e.x, 0)))>>,
        <<"expansion-diagonal-derivative", N(e.df, FDot(e.c, pd))>>,
        <<"expansion-second-derivative", N(e.d2f, FDot(e.c, p2))>>,
        <<"expansion-coefficient-gradient", NV(e.gc, p0)>>,
        <<"expansion-mixed-gradient", NV(e.mc, pd) /\ NV(e.mc2, p2)>>,
        <<"expansion-input-gradient", NV(e.gx, Vec([j \in 1..d |-> FDot(e.c, Phi(nd, e.x, j))]))>>,
        <<"expansion-mixed-input-gradient", NV(e.mx, Vec([j \in 1..d |-> IF j = d THEN FDot(e.c, p2)
                                                             ELSE FDot(Coll(nd, e.c, Pre(nd, e.x, j)), BDer(nd.b, K(nd), e.x[d]))]))>>,
        <<"padding", e.pad>> >>

RuleChecks(e) ==
  << <<"rule-nodes", VClose(e.x, CCTab[e.n][1], F0, FDec("1e-13"))>>,
     <<"rule-weights", VClose(e.w, CCTab[e.n][2], F0, FDec("1e-13"))>>,
     <<"rule-exactness", \A k \in 0..e.n-1 :           \* monomials below the number of points
         FClose(FDot(e.w, Vec([i \in 1..e.n |-> FPowI(e.x[i], k)])), IF k % 2 = 1 THEN F0 ELSE FDiv(F2, FI(k + 1)), FDec("1e-11"), FDec("1e-12"))>> >>
QuadChecks(e) ==
  << <<"integral", \A i \in 1..Len(e.res) : LET r == e.res[i] IN
         VClose(r.v, Quad(e, e.fs, r.lb, r.ub), FDec("1e-10"), FMul(FDec("1e-11"), QScale(e.fs, r.lb, r.ub)))>>,
     <<"inside-interval", \A i \in 1..Len(e.res) : e.res[i].inside>>,
     <<"workspace", \A i \in 1..Len(e.res) : e.res[i].pad>> >>

(* Bracketing doubles a step; the search then needs at most a few more steps than bisection. *)
(* The points at which the function was evaluated: from the first pair with values on both sides of the target,  *)
(* every point lies between the last one below and the last one above (RootMC).                                   *)
RECURSIVE Search(_, _, _)
Search(e, i, st) ==        \* st = [lo, hi, two, ok, first, after], with points below and above as <<x, y>>
  IF i > Len(e.at) THEN st
  ELSE IF i > 1 /\ e.at[i] = e.at[i-1] THEN Search(e, i + 1, st)
  ELSE LET p == <<e.at[i], e.ay[i]>>
           below == FLt(p[2], e.yd) \/ (p[2] = e.yd /\ st.lo = <<>>)
           in == (st.two /\ st.lo[2] # st.hi[2]) => 
             LET u == FMul(FDec("1e-14"), FAbs(p[1])) IN FLe(FMin(st.lo[1], st.hi[1]), FAdd(p[1], u)) /\ FLe(p[1], FAdd(FMax(st.lo[1], st.hi[1]), u))
           lo == IF below THEN p ELSE st.lo
           hi == IF below THEN st.hi ELSE p
           two == lo # <<>> /\ hi # <<>>
       IN Search(e, i + 1, [lo |-> lo, hi |-> hi, two |-> two, ok |-> st.ok /\ in,
                            first |-> IF two /\ ~st.two THEN FAbs(FSub(hi[1], lo[1])) ELSE st.first,
                            after |-> IF st.two THEN st.after + 1 ELSE 0])
Searched(e) == Search(e, 1, [lo |-> <<>>, hi |-> <<>>, two |-> FALSE, ok |-> TRUE, first |-> F0, after |-> 0])
SearchChecks(e) == LET S == Searched(e) IN
  << <<"search-stays-inside", S.ok>>,
     <<"search-steps", S.two => S.after <= Log2Up(FDiv(S.first, FMul(F2, e.xtol))) + 5>> >>
(* Functions that rise and fall: what is found is a crossing. *)
WaveChecks(e) == LET S == Searched(e) IN
  << <<"root-found", e.info = 0 /\ FIsFinite(e.x)>>,
     <<"root", \/ FLe(FAbs(FSub(Fn(e.fn, e.x), e.yd)), FAdd(Loose(e.ftol), FDec("1e-9")))
               \/ /\ S.two /\ FLe(FMin(S.lo[1], S.hi[1]), e.x) /\ FLe(e.x, FMax(S.lo[1], S.hi[1]))
                  /\ \/ FLe(FAbs(FSub(S.hi[1], S.lo[1])), Loose(e.xtol))
                     \/ FLe(FAbs(FSub(S.hi[2], S.lo[2])), Loose(e.ftol))>> >> \o SearchChecks(e)
RootChecks(e) ==
  IF Reachable(e.fn, e.yd)
  THEN SearchChecks(e) \o << <<"root-found", e.info = 0>>, <<"root", e.info = 0 => Solves(e.fn, e.x, e.yd, e.xtol, e.ftol)>>,
          <<"root-effort", e.count <= 12 + 3 * Log2Up(FAdd(F1, FAbs(FSub(e.x, e.x0)))) + Log2Up(FDiv(FAdd(F1, FAbs(FSub(e.x, e.x0))), e.xtol)) + 60>> >>
  ELSE << <<"no-root-reported", e.info < 0 /\ FIsNaN(e.x)>> >>
BracketChecks(e) ==
  IF Reachable(e.fn, e.yd)
  THEN << <<"bracket", /\ e.info = 0 /\ FLt(e.xlb, e.xub) /\ FLe(e.ylb, e.yd) /\ FLe(e.yd, e.yub)
                       /\ Close1(e.ylb, Fn(e.fn, e.xlb)) /\ Close1(e.yub, Fn(e.fn, e.xub))>> >>
  ELSE << <<"no-bracket-reported", e.info < 0>> >>

T12 == FDec("1e-12")
RelNear(a, b) == IF FIsFinite(b) THEN FClose(a, b, T12, FDec("1e-300")) ELSE a = b
BijChecks(e) ==
  << <<"bijector-values", \A i \in 1..Len(e.x) : IF FIsFinite(Pos(e.t, e.x[i])) THEN FClose(e.v[i], Pos(e.t, e.x[i]), T12, IF e.t = "softplus" THEN FDec("2e-15") ELSE FDec("1e-300")) ELSE e.v[i] = Pos(e.t, e.x[i])>>,
     <<"bijector-positive", \A i \in 1..Len(e.x) : FLe(FDec("-36"), e.x[i]) => FLt(F0, e.v[i])>>,
     <<"bijector-positive-far-left", \A i \in 1..Len(e.x) : (FLt(e.x[i], FDec("-36")) /\ FLe(FDec("-744"), e.x[i])) => FLt(F0, e.v[i])>>,
     <<"bijector-derivatives", \A i \in 1..Len(e.x) : RelNear(e.d[i], PosD(e.t, e.x[i]))>>,
     <<"bijector-second-derivatives", \A i \in 1..Len(e.x) : RelNear(e.d2[i], PosDD(e.t, e.x[i]))>>,
     <<"bijector-inverse", /\ \A i \in 1..Len(e.x) : (FIsFinite(e.v[i]) /\ FLt(F0, e.v[i])) =>
                                FClose(e.inv[i], e.x[i], FDec("1e-10"), FAdd(FDec("1e-10"), FDiv(FDec("1e-15"), FMin(e.v[i], F1))))
                           /\ \A i \in 1..Len(e.y) : (e.t = "exp" \/ FLe(FDec("1e-14"), e.y[i])) => FClose(e.iy[i], PosInv(e.t, e.y[i]), FDec("1e-10"), FAdd(FDec("1e-10"), FDiv(FDec("1e-15"), FMin(e.y[i], F1))))>> >>
LogisticChecks(e) ==
  << <<"logistic-values", \A i \in 1..Len(e.x) : FClose(e.v[i], Expit(e.x[i]), T12, FDec("1e-15"))>>,
     <<"logistic-derivatives", \A i \in 1..Len(e.x) : FClose(e.d[i], FMul(Expit(e.x[i]), Expit(FNeg(e.x[i]))), T12, FDec("1e-15"))>>,
     <<"logistic-inverse", \A i \in 1..Len(e.x) : LET s == FMul(e.v[i], FSub(F1, e.v[i])) IN
          FLt(F0, s) => FClose(e.inv[i], e.x[i], FDec("1e-10"), FAdd(FDec("1e-10"), FDiv(FDec("1e-15"), s)))>> >>

SigTerm(e, i, p) == Expit(FMul(e.w[i], FSub(e.x[p], e.c[i])))
SigVal(e, p) == FSum([i \in 1..Len(e.co) |-> FMul(e.co[i], SigTerm(e, i, p))])
SigGrad(e, p) == FMul(e.s[p], FSum([i \in 1..Len(e.co) |-> FMul(FMul(e.co[i], e.w[i]), FMul(SigTerm(e, i, p), FSub(F1, SigTerm(e, i, p))))]))
SigCG(e, p) == Vec([i \in 1..Len(e.co) |-> FMul(e.s[p], SigTerm(e, i, p))])
SigmoidChecks(e) ==
  IF Len(e.c) # Len(e.w) THEN << <<"sigmoid-construct", e.ret = "invalid_argument">> >>
  ELSE IF e.ret # "ok" THEN << <<"sigmoid-construct", FALSE>> >>
  ELSE LET n == Len(e.x) IN
  << <<"sigmoid-values", e.nc = Len(e.w) /\ VClose(e.v, Vec([p \in 1..n |-> SigVal(e, p)]), R1, FDec("1e-12"))>>,
     <<"sigmoid-gradients", /\ VClose(e.g, Vec([p \in 1..n |-> SigGrad(e, p)]), R1, FDec("1e-12"))
                            /\ \A p \in 1..n : VClose(e.cg[p], SigCG(e, p), R1, FDec("1e-12"))>>,
     <<"gradient-argument-order", /\ VClose(e.gi, Vec([p \in 1..n |-> SigGrad(e, p)]), R1, FDec("1e-12"))
                                  /\ \A p \in 1..n : VClose(e.cgi[p], SigCG(e, p), R1, FDec("1e-12"))>> >>

TNode(ms, d) == [b |-> [t |-> "prob", nrm |-> FALSE, lb |-> FNeg(FInf), ub |-> FInf], ms |-> ms, mo |-> MaxOrders(ms, d), dim |-> d]
TensorChecks(e) ==
  LET n1 == TNode(e.ms1, e.d1)  n2 == TNode(e.ms2, e.d2)
      c1 == SubSeq(e.c, 1, Len(e.ms1))  c2 == SubSeq(e.c, Len(e.ms1) + 1, Len(e.c))
      x1 == SubSeq(e.x, 1, e.d1)  x2 == SubSeq(e.x, e.d1 + 1, e.d1 + e.d2)
      f1 == FDot(c1, Phi(n1, x1, 0))
      N(a, b) == FClose(a, b, R1, FDec("1e-8"))
  IN << <<"tensor-sizes", e.sizes = <<Len(e.ms1) + Len(e.ms2), e.d1 + e.d2, 0>> >>,
        <<"tensor-value", N(e.v, FMul(f1, FDot(c2, Phi(n2, x2, 0))))>>,
        <<"tensor-derivatives", N(e.dd[1], FMul(f1, FDot(c2, Phi(n2, x2, e.d2)))) /\ N(e.dd[2], FMul(f1, FDot(c2, D2Terms(n2, x2))))>> >>

Checks(e) ==
  CASE e.op = "basis" -> BasisChecks(e)
    [] e.op = "worker" -> WorkerChecks(e)
    [] e.op = "rule" -> RuleChecks(e)
    [] e.op = "quad" -> QuadChecks(e)
    [] e.op = "root" -> RootChecks(e)
    [] e.op = "rootw" -> WaveChecks(e)
    [] e.op = "bracket" -> BracketChecks(e)
    [] e.op = "bij" -> BijChecks(e)
    [] e.op = "logistic" -> LogisticChecks(e)
    [] e.op = "sigmoid" -> SigmoidChecks(e)
    [] e.op = "tensor" -> TensorChecks(e)
    [] e.op = "reset" -> <<>>
    [] e.op = "Crash" -> << <<"crash", FALSE>> >>
    [] OTHER -> << <<"known-event", FALSE>> >>

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Checks(E)))
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
