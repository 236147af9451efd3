------------------------------- MODULE MapAlg -------------------------------
(* What transport maps compute.  A heap h maps object ids to nodes:          *)
(*   mono  f(x) = g(x_1..x_{d-1}, 0) + int_0^{x_d} [pos(d_d g) + nug] dt      *)
(*   exp   non-monotone expansion with one coefficient block per output      *)
(*   aff   y = A x + b (A or b may be absent), id: the last outputs of x     *)
(*   tri   block triangular stack, comp: composition (first child first)     *)
(*   sum   T(s(x_{<n}), x_n)                                                 *)
(* cf maps ids to coefficient sequences.  Every operator works at one point. *)
EXTENDS Basis, FiniteSets

----------------------------------------------------------------------------
(* Expansions and monotone components. *)
MaxOrders(ms, d) == Vec([j \in 1..d |-> LET S == {ms[i][j] : i \in 1..Len(ms)} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A k \in S : k <= m])

(* In a multivariate term a dimension of order zero contributes the factor one *)
(* (multi-indices are stored sparsely), whatever the normalization of phi_0;   *)
(* densely stored sets (record field "dense") multiply in phi_0 itself.        *)
XVal(b, n, x) == LET v == BVal(b, n, x) IN IF "dense" \in DOMAIN b /\ b.dense THEN v ELSE <<F1>> \o SubSeq(v, 2, n + 1)

(* Quadrature nodes <<t, weight, t/xd>> for int_0^xd: the documented fixed rule *)
(* itself, or for adaptive rules (whose nodes are not specified) a composite    *)
(* Gauss rule that resolves the integral well below the requested tolerance.    *)
RECURSIVE Panels(_, _, _)
Panels(a, c, m) == IF m = 0 THEN <<>> ELSE
   LET step == FDiv(FSub(c, a), FI(m))
       mid == FAdd(a, FMul(FHalf, step))
   IN [i \in 1..8 |-> <<FAdd(mid, FMul(FMul(FHalf, step), GLx[i])), FMul(FMul(FHalf, step), GLw[i])>>] \o Panels(FAdd(a, step), c, m - 1)
Between(p, x) == \/ FLt(F0, p) /\ FLt(p, x)
                 \/ FLt(x, p) /\ FLt(p, F0)
(* More panels where the exponent varies a lot. *)
NPanels(nd, co, a, c) ==
  LET G == Vec([i \in 1..9 |-> FDot(co, BDer(nd.b, nd.mo[nd.dim], FAdd(a, FMul(FSub(c, a), FMul(FDec("0.125"), FI(i - 1))))))])
      var == FSum([i \in 1..8 |-> FAbs(FSub(G[i + 1], G[i]))])
  IN 2 + FFloor(FMin(FAbs(FSub(c, a)), FI(6))) + FFloor(FMin(FMul(FDec("0.3"), var), FI(60)))
Nodes(nd, co, xd) ==
  IF nd.q.t = "cc" THEN
    LET R == CCTab[nd.q.n] IN
    Vec([i \in 1..nd.q.n |-> LET tau == FMul(FHalf, FAdd(F1, R[1][i])) IN <<FMul(tau, xd), FMul(FMul(FHalf, xd), R[2][i]), tau>>])
  ELSE
    LET cuts == IF FLt(F0, xd) THEN <<F0>> \o (IF Between(nd.b.lb, xd) THEN <<nd.b.lb>> ELSE <<>>) \o (IF Between(nd.b.ub, xd) THEN <<nd.b.ub>> ELSE <<>>) \o <<xd>>
                ELSE <<F0>> \o (IF Between(nd.b.ub, xd) THEN <<nd.b.ub>> ELSE <<>>) \o (IF Between(nd.b.lb, xd) THEN <<nd.b.lb>> ELSE <<>>) \o <<xd>>
        pan == [i \in 1..Len(cuts)-1 |-> Panels(cuts[i], cuts[i+1], NPanels(nd, co, cuts[i], cuts[i+1]))]
        all == IF Len(cuts) = 2 THEN pan[1] ELSE IF Len(cuts) = 3 THEN pan[1] \o pan[2] ELSE pan[1] \o pan[2] \o pan[3]
    IN Vec([i \in 1..Len(all) |-> <<all[i][1], all[i][2], IF FEq(xd, F0) THEN F0 ELSE FDiv(all[i][1], xd)>>])

(* The products over the first d-1 dimensions, one per term; jd # 0 differentiates dimension jd. *)
Pre(nd, x, jd) ==
  LET B == Vec([j \in 1..nd.dim-1 |-> IF j = jd THEN BDer(nd.b, nd.mo[j], x[j]) ELSE XVal(nd.b, nd.mo[j], x[j])])
  IN Vec([i \in 1..Len(nd.ms) |-> FProd([j \in 1..nd.dim-1 |-> B[j][nd.ms[i][j]+1]])])
(* Collapsed coefficients of the last dimension: g(x_<d, t) = sum_k c[k+1] phi_k(t). *)
Coll(nd, w, P) == Vec([k \in 1..nd.mo[nd.dim]+1 |-> FSum([i \in 1..Len(nd.ms) |-> IF nd.ms[i][nd.dim] = k-1 THEN FMul(w[i], P[i]) ELSE F0])])
K(nd) == nd.mo[nd.dim]

MonoEval(nd, w, x) ==
  LET P == Pre(nd, x, 0)  c == Coll(nd, w, P)
      N == Nodes(nd, c, x[nd.dim])
      I == FSum([i \in 1..Len(N) |-> FMul(N[i][2], FAdd(nd.nug, Pos(nd.pos, FDot(c, BDer(nd.b, K(nd), N[i][1])))))])
  IN FAdd(FDot(c, XVal(nd.b, K(nd), F0)), I)

(* phi_k(0) + int pos'(d_d g) phi_k' : the weight with which order k of the last dimension enters df. *)
KFactors(nd, c, x) ==
  LET N == Nodes(nd, c, x[nd.dim])
      D == Vec([i \in 1..Len(N) |-> BDer(nd.b, K(nd), N[i][1])])
      G == Vec([i \in 1..Len(N) |-> FMul(N[i][2], PosD(nd.pos, FDot(c, D[i])))])
      V == XVal(nd.b, K(nd), F0)
  IN Vec([k \in 1..K(nd)+1 |-> FAdd(V[k], FSum([i \in 1..Len(N) |-> FMul(G[i], D[i][k])]))])

(* Derivative with respect to x_d of the integral itself, or of its quadrature. *)
DiagCont(nd, c, xd) == FAdd(nd.nug, Pos(nd.pos, FDot(c, BDer(nd.b, K(nd), xd))))
DiagDisc(nd, c, xd) ==
  IF nd.q.t # "cc" THEN DiagCont(nd, c, xd)      \* equal up to the quadrature tolerance
  ELSE LET R == CCTab[nd.q.n] IN
       FSum([i \in 1..nd.q.n |->
          LET tau == FMul(FHalf, FAdd(F1, R[1][i]))
              u == FDot(c, BDer(nd.b, K(nd), FMul(tau, xd)))
              du == FDot(c, BDer2(nd.b, K(nd), FMul(tau, xd)))
          IN FMul(FMul(FHalf, R[2][i]), FAdd(FAdd(nd.nug, Pos(nd.pos, u)), FMul(FMul(xd, tau), FMul(PosD(nd.pos, u), du))))])
MonoDiag(nd, w, x) == LET c == Coll(nd, w, Pre(nd, x, 0)) IN
                      IF nd.cont THEN DiagCont(nd, c, x[nd.dim]) ELSE DiagDisc(nd, c, x[nd.dim])

MonoGradX(nd, w, x) ==
  LET P == Pre(nd, x, 0)  c == Coll(nd, w, P)  F == KFactors(nd, c, x)
  IN Vec([j \in 1..nd.dim |-> IF j = nd.dim THEN DiagDisc(nd, c, x[nd.dim])
                              ELSE LET Q == Pre(nd, x, j) IN FSum([i \in 1..Len(nd.ms) |-> FMul(FMul(w[i], Q[i]), F[nd.ms[i][nd.dim]+1])])])
MonoGradW(nd, w, x) ==
  LET P == Pre(nd, x, 0)  F == KFactors(nd, Coll(nd, w, P), x)
  IN Vec([i \in 1..Len(nd.ms) |-> FMul(P[i], F[nd.ms[i][nd.dim]+1])])

(* Gradients of log(diagonal derivative). *)
MonoLDGradW(nd, w, x) ==
  LET P == Pre(nd, x, 0)  c == Coll(nd, w, P)  xd == x[nd.dim]
      E == IF nd.cont \/ nd.q.t # "cc"
           THEN LET d == BDer(nd.b, K(nd), xd)  g == PosD(nd.pos, FDot(c, d)) IN Vec([k \in 1..K(nd)+1 |-> FMul(g, d[k])])
           ELSE LET R == CCTab[nd.q.n]
                    T == Vec([i \in 1..nd.q.n |-> FMul(FHalf, FAdd(F1, R[1][i]))])
                    D == Vec([i \in 1..nd.q.n |-> BDer(nd.b, K(nd), FMul(T[i], xd))])
                    S == Vec([i \in 1..nd.q.n |-> BDer2(nd.b, K(nd), FMul(T[i], xd))])
                    U == Vec([i \in 1..nd.q.n |-> FDot(c, D[i])])
                    dU == Vec([i \in 1..nd.q.n |-> FDot(c, S[i])])
                IN Vec([k \in 1..K(nd)+1 |-> FSum([i \in 1..nd.q.n |->
                      FMul(FMul(FHalf, R[2][i]),
                           FAdd(FMul(PosD(nd.pos, U[i]), D[i][k]),
                                FMul(FMul(xd, T[i]), FAdd(FMul(FMul(PosDD(nd.pos, U[i]), dU[i]), D[i][k]), FMul(PosD(nd.pos, U[i]), S[i][k])))))])])
      m == MonoDiag(nd, w, x)
  IN Vec([i \in 1..Len(nd.ms) |-> FDiv(FMul(P[i], E[nd.ms[i][nd.dim]+1]), m)])
MonoLDGradX(nd, w, x) ==          \* specified for the continuous derivative only
  LET c == Coll(nd, w, Pre(nd, x, 0))  xd == x[nd.dim]
      d == BDer(nd.b, K(nd), xd)
      r == FDiv(PosD(nd.pos, FDot(c, d)), DiagCont(nd, c, xd))
  IN Vec([j \in 1..nd.dim |-> FMul(r, IF j = nd.dim THEN FDot(c, BDer2(nd.b, K(nd), xd))
                                      ELSE FDot(Coll(nd, w, Pre(nd, x, j)), d))])

(* Expansions: output d uses the d-th block of coefficients. *)
Block(nd, w, d) == SubSeq(w, (d-1) * Len(nd.ms) + 1, d * Len(nd.ms))
Phi(nd, x, jd) == LET B == Vec([j \in 1..nd.dim |-> IF j = jd THEN BDer(nd.b, nd.mo[j], x[j]) ELSE XVal(nd.b, nd.mo[j], x[j])])
                  IN Vec([i \in 1..Len(nd.ms) |-> FProd([j \in 1..nd.dim |-> B[j][nd.ms[i][j]+1]])])
ExpEval(nd, w, x) == LET p == Phi(nd, x, 0) IN Vec([d \in 1..nd.nout |-> FDot(Block(nd, w, d), p)])
ExpVJP(nd, w, x, s) == LET V == Vec([i \in 1..Len(nd.ms) |-> FSum([d \in 1..nd.nout |-> FMul(s[d], Block(nd, w, d)[i])])])
                       IN Vec([j \in 1..nd.dim |-> FDot(V, Phi(nd, x, j))])
ExpCVJP(nd, x, s) == LET p == Phi(nd, x, 0) IN Vec([i \in 1..nd.nc |-> FMul(s[((i-1) \div Len(nd.ms)) + 1], p[((i-1) % Len(nd.ms)) + 1])])

----------------------------------------------------------------------------
(* The logarithm of |det| by elimination: the pivots' logarithms are summed, so that *)
(* neither many dimensions nor large or small entries leave the range of doubles.     *)
RECURSIVE LogAbsDet(_)
LogAbsDet(M) ==
  IF Len(M) = 1 THEN FLog(FAbs(M[1][1]))
  ELSE LET p == CHOOSE i \in 1..Len(M) : \A k \in 1..Len(M) : FLe(FAbs(M[k][1]), FAbs(M[i][1]))
           R == [i \in 1..Len(M)-1 |-> M[IF i < p THEN i ELSE i + 1]]
           S == Vec([i \in 1..Len(R) |-> LET q == FDiv(R[i][1], M[p][1]) IN Vec([j \in 1..Len(R) |-> FSub(R[i][j+1], FMul(q, M[p][j+1]))])])
       IN FAdd(FLog(FAbs(M[p][1])), LogAbsDet(S))
RightBlock(A) == LET r == Len(A)  c == Len(A[1]) IN Vec([i \in 1..r |-> [j \in 1..r |-> A[i][c - r + j]]])

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
OutOff(h, ch, i) == SumTo([k \in 1..Len(ch) |-> h[ch[k]].nout], i - 1)
Pad(v, n) == v \o VZero(n - Len(v))
RECURSIVE VSumSeq(_, _)
VSumSeq(vs, n) == IF vs = <<>> THEN VZero(n) ELSE VAdd(vs[1], VSumSeq(Tail(vs), n))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))

RECURSIVE Eval(_, _, _, _), VJP(_, _, _, _, _), CVJP(_, _, _, _, _), LogDet(_, _, _, _), LDX(_, _, _, _), LDW(_, _, _, _),
          Layers(_, _, _, _), BackX(_, _, _, _, _, _), BackW(_, _, _, _, _, _), LayLDX(_, _, _, _, _, _)

SumIn(h, cf, nd, x) == Eval(h, cf, nd.f, SubSeq(x, 1, Len(x) - 1)) \o <<x[Len(x)]>>
Eval(h, cf, id, x) ==
  LET nd == h[id] IN
  CASE nd.k = "mono" -> <<MonoEval(nd, cf[id], x)>>
    [] nd.k = "exp" -> ExpEval(nd, cf[id], x)
    [] nd.k = "aff" -> LET y == IF nd.A = <<>> THEN x ELSE MatVec(nd.A, x) IN IF nd.bb = <<>> THEN y ELSE VAdd(y, nd.bb)
    [] nd.k = "id" -> SubSeq(x, nd.nin - nd.nout + 1, nd.nin)
    [] nd.k = "tri" -> Concat([i \in 1..Len(nd.ch) |-> Eval(h, cf, nd.ch[i], SubSeq(x, 1, h[nd.ch[i]].nin))])
    [] nd.k = "comp" -> LET L == Layers(h, cf, nd.ch, <<x>>) IN L[Len(L)]
    [] nd.k = "sum" -> Eval(h, cf, nd.g, SumIn(h, cf, nd, x))
(* <<x_0, x_1, ..., x_n>>: the input of every layer and the output of the last. *)
Layers(h, cf, ch, acc) == IF Len(acc) > Len(ch) THEN acc
                          ELSE Layers(h, cf, ch, Append(acc, Eval(h, cf, ch[Len(acc)], acc[Len(acc)])))

(* s^T dT/dx *)
VJP(h, cf, id, x, s) ==
  LET nd == h[id] IN
  CASE nd.k = "mono" -> VScale(s[1], MonoGradX(nd, cf[id], x))
    [] nd.k = "exp" -> ExpVJP(nd, cf[id], x, s)
    [] nd.k = "aff" -> IF nd.A = <<>> THEN s ELSE MatTVec(nd.A, s, nd.nin)
    [] nd.k = "id" -> VZero(nd.nin - nd.nout) \o s
    [] nd.k = "tri" -> VSumSeq([i \in 1..Len(nd.ch) |-> LET c == h[nd.ch[i]]  o == OutOff(h, nd.ch, i) IN
                          Pad(VJP(h, cf, nd.ch[i], SubSeq(x, 1, c.nin), SubSeq(s, o + 1, o + c.nout)), nd.nin)], nd.nin)
    [] nd.k = "comp" -> BackX(h, cf, nd.ch, Layers(h, cf, nd.ch, <<x>>), Len(nd.ch), s)
    [] nd.k = "sum" -> LET v == VJP(h, cf, nd.g, SumIn(h, cf, nd, x), s)
                           r == h[nd.f].nout IN VJP(h, cf, nd.f, SubSeq(x, 1, Len(x) - 1), SubSeq(v, 1, r)) \o <<v[r+1]>>
BackX(h, cf, ch, L, i, s) == IF i = 0 THEN s ELSE BackX(h, cf, ch, L, i - 1, VJP(h, cf, ch[i], L[i], s))

(* s^T dT/dw, the coefficients of the children in order *)
CVJP(h, cf, id, x, s) ==
  LET nd == h[id] IN
  CASE nd.k = "mono" -> VScale(s[1], MonoGradW(nd, cf[id], x))
    [] nd.k = "exp" -> ExpCVJP(nd, x, s)
    [] nd.k \in {"aff", "id"} -> <<>>
    [] nd.k = "tri" -> Concat([i \in 1..Len(nd.ch) |-> LET c == h[nd.ch[i]]  o == OutOff(h, nd.ch, i) IN
                          IF c.nc = 0 THEN <<>> ELSE CVJP(h, cf, nd.ch[i], SubSeq(x, 1, c.nin), SubSeq(s, o + 1, o + c.nout))])
    [] nd.k = "comp" -> BackW(h, cf, nd.ch, Layers(h, cf, nd.ch, <<x>>), Len(nd.ch), s)
    [] nd.k = "sum" -> CVJP(h, cf, nd.g, SumIn(h, cf, nd, x), s)
BackW(h, cf, ch, L, i, s) == IF i = 0 THEN <<>> ELSE
   BackW(h, cf, ch, L, i - 1, IF i = 1 THEN s ELSE VJP(h, cf, ch[i], L[i], s)) \o CVJP(h, cf, ch[i], L[i], s)

(* log |det dT/dx_{last nout}| *)
LogDet(h, cf, id, x) ==
  LET nd == h[id] IN
  CASE nd.k = "mono" -> LET m == MonoDiag(nd, cf[id], x) IN IF FLe(m, F0) THEN FNeg(FInf) ELSE FLog(m)
    [] nd.k = "aff" -> IF nd.A = <<>> THEN F0 ELSE LogAbsDet(RightBlock(nd.A))
    [] nd.k = "id" -> F0
    [] nd.k = "tri" -> FSum([i \in 1..Len(nd.ch) |-> LogDet(h, cf, nd.ch[i], SubSeq(x, 1, h[nd.ch[i]].nin))])
    [] nd.k = "comp" -> LET L == Layers(h, cf, nd.ch, <<x>>) IN FSum([i \in 1..Len(nd.ch) |-> LogDet(h, cf, nd.ch[i], L[i])])
    [] nd.k = "sum" -> LogDet(h, cf, nd.g, SumIn(h, cf, nd, x))

(* Second derivative in the last direction, per term. *)
D2Terms(nd, x) == LET P == Pre(nd, x, 0)  S == BDer2(nd.b, K(nd), x[nd.dim]) IN Vec([i \in 1..Len(nd.ms) |-> FMul(P[i], S[nd.ms[i][nd.dim] + 1])])
(* Softplus is accurate to a few 1e-16 absolutely: where a component's slope is tiny its logarithm, and what is divided *)
(* by it, is not accurate relatively.                                                                                *)
RECURSIVE Slack(_, _, _, _)
Slack(h, cf, id, x) ==
  LET nd == h[id] IN
  CASE nd.k = "mono" ->
         LET m == MonoDiag(nd, cf[id], x) IN
         IF ~nd.cont /\ nd.q.t # "cc"      \* the tolerance of an adaptive rule is for the value it integrates, not for its derivatives
         THEN IF FLe(m, F0) THEN FInf ELSE FDiv(FMul(FDec("1e-6"), FAdd(F1, FMaxAbs(D2Terms(nd, x)))), FMin(F1, m))
         ELSE IF nd.pos = "softplus" THEN IF FLe(m, F0) THEN FInf ELSE FDiv(FDec("2e-14"), m) ELSE F0
    [] nd.k = "tri" -> FSum([i \in 1..Len(nd.ch) |-> Slack(h, cf, nd.ch[i], SubSeq(x, 1, h[nd.ch[i]].nin))])
    [] nd.k = "comp" -> LET L == Layers(h, cf, nd.ch, <<x>>) IN FSum([i \in 1..Len(nd.ch) |-> Slack(h, cf, nd.ch[i], L[i])])
    [] nd.k = "sum" -> Slack(h, cf, nd.g, SumIn(h, cf, nd, x))
    [] OTHER -> F0

(* Deep compositions may run away; their results are judged only where the values between the layers stay moderate. *)
RECURSIVE Tame(_, _, _, _)
Tame(h, cf, id, x) ==
  LET nd == h[id] IN
  CASE nd.k = "comp" -> LET L == Layers(h, cf, nd.ch, <<x>>) IN
                        /\ \A i \in 1..Len(L) : \A j \in 1..Len(L[i]) : FLe(FAbs(L[i][j]), FDec("1e3"))
                        /\ \A i \in 1..Len(nd.ch) : Tame(h, cf, nd.ch[i], L[i])
    [] nd.k = "tri" -> \A i \in 1..Len(nd.ch) : Tame(h, cf, nd.ch[i], SubSeq(x, 1, h[nd.ch[i]].nin))
    [] OTHER -> TRUE

(* d logdet / dx *)
LDX(h, cf, id, x) ==
  LET nd == h[id] IN
  CASE nd.k = "mono" -> MonoLDGradX(nd, cf[id], x)
    [] nd.k \in {"aff", "id"} -> VZero(nd.nin)
    [] nd.k = "tri" -> VSumSeq([i \in 1..Len(nd.ch) |-> Pad(LDX(h, cf, nd.ch[i], SubSeq(x, 1, h[nd.ch[i]].nin)), nd.nin)], nd.nin)
    [] nd.k = "comp" -> LET L == Layers(h, cf, nd.ch, <<x>>) IN LayLDX(h, cf, nd.ch, L, Len(nd.ch), VZero(nd.nin))
    [] nd.k = "sum" -> LET v == LDX(h, cf, nd.g, SumIn(h, cf, nd, x))  r == h[nd.f].nout IN
                       VJP(h, cf, nd.f, SubSeq(x, 1, Len(x) - 1), SubSeq(v, 1, r)) \o <<v[r+1]>>
(* acc: gradient of the log determinants of the layers above i with respect to the output of layer i *)
LayLDX(h, cf, ch, L, i, acc) == IF i = 0 THEN acc
   ELSE LayLDX(h, cf, ch, L, i - 1, VAdd(VJP(h, cf, ch[i], L[i], acc), LDX(h, cf, ch[i], L[i])))

(* d logdet / dw *)
RECURSIVE LayLDW(_, _, _, _, _, _)
LDW(h, cf, id, x) ==
  LET nd == h[id] IN
  CASE nd.k = "mono" -> MonoLDGradW(nd, cf[id], x)
    [] nd.k \in {"aff", "id"} -> <<>>
    [] nd.k = "tri" -> Concat([i \in 1..Len(nd.ch) |-> IF h[nd.ch[i]].nc = 0 THEN <<>> ELSE LDW(h, cf, nd.ch[i], SubSeq(x, 1, h[nd.ch[i]].nin))])
    [] nd.k = "comp" -> LET L == Layers(h, cf, nd.ch, <<x>>) IN LayLDW(h, cf, nd.ch, L, Len(nd.ch), VZero(nd.nin))
    [] nd.k = "sum" -> LDW(h, cf, nd.g, SumIn(h, cf, nd, x))
LayLDW(h, cf, ch, L, i, acc) == IF i = 0 THEN <<>>
   ELSE LayLDW(h, cf, ch, L, i - 1, IF i = 1 THEN acc ELSE VAdd(VJP(h, cf, ch[i], L[i], acc), LDX(h, cf, ch[i], L[i])))
        \o (IF h[ch[i]].nc = 0 THEN <<>> ELSE VAdd(CVJP(h, cf, ch[i], L[i], acc), LDW(h, cf, ch[i], L[i])))

----------------------------------------------------------------------------
(* How closely the code can be expected to follow: exact arithmetic on the   *)
(* documented rule, or an adaptive rule with a requested tolerance.          *)
RECURSIVE Tol(_, _)
Tol(h, id) ==
  LET nd == h[id] IN
  CASE nd.k = "mono" -> IF nd.q.t = "cc" THEN FDec("1e-9") ELSE FAdd(FDec("1e-7"), FMul(FI(200), nd.q.tol))
    [] nd.k \in {"tri", "comp"} -> FMul(IF nd.k = "comp" THEN FI(10) ELSE F1, FMaxAbs([i \in 1..Len(nd.ch) |-> Tol(h, nd.ch[i])]))
    [] nd.k = "sum" -> FMax(Tol(h, nd.f), Tol(h, nd.g))
    [] OTHER -> FDec("1e-10")
RECURSIVE ContAll(_, _)      \* every monotone component uses the continuous derivative
ContAll(h, id) == LET nd == h[id] IN
  CASE nd.k = "mono" -> nd.cont
    [] nd.k \in {"tri", "comp"} -> \A i \in 1..Len(nd.ch) : ContAll(h, nd.ch[i])
    [] nd.k = "sum" -> ContAll(h, nd.g)
    [] OTHER -> TRUE
RECURSIVE DiscComp(_, _)     \* contains a composition with a discrete derivative
DiscComp(h, id) == LET nd == h[id] IN
  CASE nd.k = "comp" -> ~ContAll(h, id)
    [] nd.k = "tri" -> \E i \in 1..Len(nd.ch) : DiscComp(h, nd.ch[i])
    [] nd.k = "sum" -> DiscComp(h, nd.g)
    [] OTHER -> FALSE

(* y solves T(x1, y) = r: a monotone component to the tolerance of its root *)
(* search, in value or in argument; the containers component by component.  *)
XT == FDec("2e-6")
Unit(i, n) == [j \in 1..n |-> IF j = i THEN F1 ELSE F0]
RECURSIVE BackAbs(_, _, _, _, _, _)     \* sum of the magnitudes of the derivatives of s^T output in the inputs of all layers
BackAbs(h, cf, ch, L, i, s) == IF i = 0 THEN F0 ELSE LET v == VJP(h, cf, ch[i], L[i], s) IN
  FAdd(FSum([j \in 1..Len(v) |-> FAbs(v[j])]), BackAbs(h, cf, ch, L, i - 1, v))
RECURSIVE InvOK(_, _, _, _, _, _)
InvOK(h, cf, id, x1, r, y) ==
  LET nd == h[id] IN
  CASE nd.k = "mono" -> LET pt(v) == SubSeq(x1, 1, nd.dim - 1) \o <<v>>
                            slack == FAdd(XT, FMul(Tol(h, id), FAdd(F1, FAbs(r[1]))))
                        IN /\ FIsFinite(y[1])
                           /\ FLe(FSub(MonoEval(nd, cf[id], pt(FSub(y[1], XT))), slack), r[1])
                           /\ FLe(r[1], FAdd(MonoEval(nd, cf[id], pt(FAdd(y[1], XT))), slack))
    [] nd.k = "aff" -> VClose(Eval(h, cf, id, SubSeq(x1, 1, nd.nin - nd.nout) \o y), r, FDec("1e-9"), FDec("1e-9"))
    [] nd.k = "id" -> y = r
    [] nd.k = "tri" -> \A i \in 1..Len(nd.ch) :
                         LET c == h[nd.ch[i]]  o == OutOff(h, nd.ch, i) IN
                         InvOK(h, cf, nd.ch[i], SubSeq(SubSeq(x1, 1, nd.nin - nd.nout) \o y, 1, c.nin - c.nout), SubSeq(r, o + 1, o + c.nout), SubSeq(y, o + 1, o + c.nout))
    [] nd.k = "comp" ->       \* every layer is inverted to the solver's tolerance; what reaches the output is that times the slopes above
         LET L == Layers(h, cf, nd.ch, <<y>>)  n == Len(L) IN
         \/ \E k \in 1..n : FLt(FDec("1e8"), FMaxAbs(L[k]))     \* nothing can be said in double precision
         \/ /\ \A i \in 1..Len(y) : FIsFinite(y[i])
            /\ \A i \in 1..Len(r) :
                 FLe(FAbs(FSub(L[n][i], r[i])),
                     FAdd(FMul(FDec("1e-3"), FAdd(F1, FAbs(r[i]))), FMul(FMul(FI(3), XT), BackAbs(h, cf, nd.ch, L, n - 1, Unit(i, Len(r))))))
    [] nd.k = "sum" -> InvOK(h, cf, nd.g, Eval(h, cf, nd.f, SubSeq(x1, 1, nd.nin - 1)), r, y)
=============================================================================
