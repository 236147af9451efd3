------------------------------ MODULE TraceDist -----------------------------
(* Conformance of densities, samplers, training objectives, training and    *)
(* adaptive training, on top of the heap of maps of TraceMap.               *)
EXTENDS TraceMap

VARIABLES dd,     \* density id -> node
          ob      \* objective id -> [tr, te, den]
dvars == <<l, h, own, buf, cf, nb, fs, vw, gone, dd, ob>>

----------------------------------------------------------------------------
(* Densities. *)
RECURSIVE Fwd(_, _, _), Bwd(_, _, _, _)
Fwd(L, b, acc) == LET i == Len(acc) + 1 IN IF i > Len(b) THEN acc
  ELSE Fwd(L, b, acc \o <<FDiv(FSub(b[i], FSum([j \in 1..i-1 |-> FMul(L[i][j], acc[j])])), L[i][i])>>)
Bwd(L, y, i, acc) == IF i = 0 THEN acc       \* acc solves rows i+1..n
  ELSE LET n == Len(y) IN Bwd(L, y, i - 1, <<FDiv(FSub(y[i], FSum([j \in 1..n-i |-> FMul(L[i+j][i], acc[j])])), L[i][i])>> \o acc)
White(nd, x) == LET c == IF nd.hasmean THEN VSub(x, nd.mean) ELSE x IN IF nd.hascov THEN Vec(Fwd(nd.lo, c, <<>>)) ELSE c
LogTau == FLog(FMul(F2, FDec("3.14159265358979323846")))
GLog(nd, x) == LET w == White(nd, x) IN
  FMul(FDec("-0.5"), FAdd(FAdd(FMul(FI(nd.dim), LogTau), FDot(w, w)),
                          IF nd.hascov THEN FMul(F2, FSum([i \in 1..nd.dim |-> FLog(FAbs(nd.lo[i][i]))])) ELSE F0))
GGrad(nd, x) == LET w == White(nd, x) IN VScale(FI(-1), IF nd.hascov THEN Bwd(nd.lo, w, nd.dim, <<>>) ELSE w)

RECURSIVE Dens(_, _, _), DensX(_, _, _), GradOK(_), Ready(_), DTol(_)
Dens(C, id, x) == LET nd == dd[id] IN IF nd.k = "gauss" THEN GLog(nd, x)
                                      ELSE FAdd(Dens(C, nd.ref, Eval(h, C, nd.map, x)), LogDet(h, C, nd.map, x))
DensX(C, id, x) == LET nd == dd[id] IN IF nd.k = "gauss" THEN GGrad(nd, x)
                                       ELSE VAdd(VJP(h, C, nd.map, x, DensX(C, nd.ref, Eval(h, C, nd.map, x))), LDX(h, C, nd.map, x))
DensC(C, id, x) == LET nd == dd[id] IN VAdd(CVJP(h, C, nd.map, x, DensX(C, nd.ref, Eval(h, C, nd.map, x))), LDW(h, C, nd.map, x))
(* Values at the image of x under the map of a pushforward. *)
ImgDens(C, id, x) == LET nd == dd[id] IN FSub(Dens(C, nd.ref, x), LogDet(h, C, nd.map, x))
RECURSIVE DSlack(_, _)
DSlack(id, x) == LET nd == dd[id] IN IF nd.k = "gauss" THEN F0 ELSE FAdd(Slack(h, cf, nd.map, x), DSlack(nd.ref, Eval(h, cf, nd.map, x)))
DSlacks(e) == Vec([p \in 1..Len(e.x) |-> LET nd == dd[e.id] IN IF nd.k = "push" THEN FAdd(Slack(h, cf, nd.map, e.z[p]), DSlack(nd.ref, e.z[p])) ELSE DSlack(e.id, e.x[p])])
GradOK(id) == LET nd == dd[id] IN nd.k = "gauss" \/ (nd.k = "pull" /\ ContAll(h, nd.map) /\ GradOK(nd.ref))
Ready(id) == LET nd == dd[id] IN nd.k = "gauss" \/ (IsSet(h, Mem, nd.map) /\ Ready(nd.ref))
DTol(id) == LET nd == dd[id] IN IF nd.k = "gauss" THEN FDec("1e-9") ELSE FMax(FMul(FI(10), Tol(h, nd.map)), DTol(nd.ref))
RowsOf(id) == LET nd == dd[id] IN IF nd.k = "gauss" THEN nd.dim ELSE h[nd.map].nin

MakeDen(e) ==
  CASE e.op = "gauss" -> [ret |-> "ok", nd |-> [k |-> "gauss", dim |-> e.dim, hasmean |-> e.hasmean, mean |-> e.mean, hascov |-> e.hascov, lo |-> e.lo]]
    [] e.op = "pull" -> [ret |-> IF h[e.map].nout = dd[e.ref].dim THEN "ok" ELSE "invalid_argument",
                         nd |-> [k |-> "pull", dim |-> dd[e.ref].dim, map |-> e.map, ref |-> e.ref]]
    [] e.op = "push" -> [ret |-> IF h[e.map].nout = dd[e.ref].dim /\ h[e.map].nin = h[e.map].nout THEN "ok" ELSE "invalid_argument",
                         nd |-> [k |-> "push", dim |-> dd[e.ref].dim, map |-> e.map, ref |-> e.ref]]

DKind(k) == CASE k = "v" -> "log-density" [] k = "g" -> "log-density-input-gradient" [] k = "c" -> "log-density-coeff-gradient"
(* The outcomes allowed for a quantity of a density. *)
DOut(e, k) == LET nd == dd[e.id] IN
  IF nd.k = "gauss" THEN (IF Len(e.x) > 0 /\ Len(e.x[1]) # nd.dim THEN {"runtime_error"} ELSE {"ok"})
  ELSE IF k = "g" /\ nd.k = "push" THEN {"runtime_error"}
  ELSE IF ~Ready(e.id) THEN {"runtime_error"}
  ELSE IF k = "v" THEN {"ok"}
  ELSE IF k = "g" THEN (IF GradOK(e.id) THEN {"ok"} ELSE {"invalid_argument", "runtime_error"})
  ELSE IF ~GradOK(nd.ref) THEN {"invalid_argument", "runtime_error"}
  ELSE IF DiscComp(h, nd.map) THEN {"ok", "invalid_argument"} ELSE {"ok"}
DWant(e, k) == LET n == Len(e.x) IN
  CASE k = "v" /\ dd[e.id].k = "push" -> Vec([p \in 1..n |-> <<ImgDens(cf, e.id, e.z[p])>>])     \* z: the preimages
    [] k = "v" -> Vec([p \in 1..n |-> <<Dens(cf, e.id, e.x[p])>>])
    [] k = "g" -> Vec([p \in 1..n |-> DensX(cf, e.id, e.x[p])])
    [] k = "c" -> Vec([p \in 1..n |-> DensC(cf, e.id, e.x[p])])
DKindChecks(e, k) ==
  << <<"outcome:" \o DKind(k), \A i \in 1..Len(e.res) : e.res[i].op = k => e.res[i].ret \in DOut(e, k)>> >> \o
  (IF "ok" \notin DOut(e, k) THEN <<>> ELSE
   LET W == DWant(e, k)  t == DTol(e.id)  sl == DSlacks(e) IN
   << <<DKind(k), \A i \in 1..Len(e.res) : (e.res[i].op = k /\ e.res[i].ret = "ok") => CloseUpTo(e.res[i].v, W, t, sl)>> >>)
RECURSIVE DAll(_, _)
DAll(e, S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : TRUE IN DKindChecks(e, k) \o DAll(e, S \ {k})
(* The preimages of a pushforward's points are those the map's own inverse returns; where the point was made as an *)
(* image, they agree with what it was the image of.                                                                *)
PreimageOK(e) == ~(Has(e, "z") /\ Ready(e.id)) \/ e.x = <<>>
                 \/ (Len(e.z) = Len(e.x) /\ (e.op = "densf" => \A p \in 1..Len(e.x) : InvOK(h, cf, dd[e.id].map, <<>>, Eval(h, cf, dd[e.id].map, e.x[p]), e.z[p])))
DensChecks(e) == DAll(e, Ks(e)) \o << <<"preimage", PreimageOK(e)>> >> \o << <<"padding", \A i \in 1..Len(e.res) : e.res[i].pad>>, <<"no-side-effects", e.pure>> >>

----------------------------------------------------------------------------
(* Samplers: a transported sampler's draws are the (pre)images of its reference's draws under the same seed;    *)
(* whitened Gaussian draws have the moments, tail fractions and independence of standard normal ones.           *)
Sixth(n) == FDiv(FI(6), FSqrt(FI(n)))
Phi0(q) == FMul(FHalf, FAdd(F1, FErf(FDiv(q, FSqrt(F2)))))
Col(W, i) == Vec([p \in 1..Len(W) |-> W[p][i]])
Near0(a, b, t) == FLe(FAbs(FSub(a, b)), t)
NormalLike(W, d) ==
  LET n == Len(W)  s == Sixth(n)  c == Vec([i \in 1..d |-> Col(W, i)])
      avg(v) == FDiv(FSum(v), FI(n))
      pw(v, k) == Vec([p \in 1..n |-> FPowI(v[p], k)])
      lag(v, m) == FDiv(FDot(SubSeq(v, 1, n - m), SubSeq(v, m + 1, n)), FI(n - m))
  IN \A i \in 1..d :
       /\ Near0(avg(c[i]), F0, s)
       /\ Near0(avg(pw(c[i], 2)), F1, FMul(s, FSqrt(F2)))
       /\ Near0(avg(pw(c[i], 3)), F0, FMul(s, FSqrt(FI(15))))
       /\ Near0(avg(pw(c[i], 4)), FI(3), FMul(s, FSqrt(FI(96))))
       /\ \A j \in 1..i-1 : Near0(FDiv(FDot(c[i], c[j]), FI(n)), F0, s) /\ Near0(FDiv(FDot(Tail(c[i]), SubSeq(c[j], 1, n - 1)), FI(n)), F0, s)
       /\ \A m \in {1, 2, n \div 8, n \div 4, n \div 2} : Near0(lag(c[i], m), F0, FMul(F2, s))
       /\ \A q \in {-2, -1, 0, 1, 2} : Near0(FDiv(FI(Cardinality({p \in 1..n : FLe(c[i][p], FI(q))})), FI(n)), Phi0(FI(q)), FMul(FHalf, s))
       /\ Cardinality({c[i][p] : p \in 1..n}) = n
SampChecks(e) ==
  LET nd == dd[e.id] IN
  IF ~(nd.k = "gauss" \/ (IsSet(h, Mem, nd.map) /\ Ready(nd.ref))) THEN << <<"outcome:sample", e.ret = "runtime_error">> >>
  ELSE IF nd.k # "gauss" /\ h[nd.map].nin # h[nd.map].nout THEN <<>>      \* the reference itself samples
  ELSE << <<"outcome:sample", e.ret = "ok">>,
     <<"sample-size", e.ret = "ok" => Len(e.s) = e.n /\ \A p \in 1..e.n : Len(e.s[p]) = nd.dim>>,
     <<"sample-repeatable", e.repeatable>>, <<"sample-advances", e.n > 0 => e.fresh>>, <<"sample-seed", e.n > 0 => e.seeded>>,
     <<"sample-distribution", (e.ret = "ok" /\ nd.k = "gauss" /\ e.n >= 500) => NormalLike(Vec([p \in 1..e.n |-> White(nd, e.s[p])]), nd.dim)>>,
     <<"sample-image", (e.ret = "ok" /\ nd.k = "push") => AllClose(e.s, Vec([p \in 1..e.n |-> Eval(h, cf, nd.map, e.z[p])]), Tol(h, nd.map))>>,
     <<"sample-preimage", (e.ret = "ok" /\ nd.k = "pull") => \A p \in 1..e.n : InvOK(h, cf, nd.map, <<>>, e.z[p], e.s[p])>>,
     <<"padding", e.pad>>, <<"no-side-effects", e.pure>> >>

----------------------------------------------------------------------------
(* The Kullback-Leibler objective: the mean negative log density of the data under the pullback of the density. *)
StdNode(d) == [k |-> "gauss", dim |-> d, hasmean |-> FALSE, mean |-> <<>>, hascov |-> FALSE, lo |-> <<>>]
DenOf(o) == IF o.den = 0 THEN StdNode(o.mdim) ELSE dd[o.den]
NV(C, o, m, x) == LET y == Eval(h, C, m, x) IN FNeg(FAdd(IF o.den = 0 THEN GLog(StdNode(o.mdim), y) ELSE Dens(C, o.den, y), LogDet(h, C, m, x)))
NG(C, o, m, x) == LET y == Eval(h, C, m, x) IN VScale(FI(-1), VAdd(CVJP(h, C, m, x, IF o.den = 0 THEN GGrad(StdNode(o.mdim), y) ELSE DensX(C, o.den, y)), LDW(h, C, m, x)))
KL(C, o, m, X) == FDiv(FSum([p \in 1..Len(X) |-> NV(C, o, m, X[p])]), FI(Len(X)))
KLGrad(C, o, m, X) == LET n == Len(X) IN VScale(FDiv(F1, FI(n)), VSumSeq(Vec([p \in 1..n |-> NG(C, o, m, X[p])]), h[m].nc))
OTol(o, m) == FMul(FI(10), Tol(h, m))
ObjReady(o, m) == IsSet(h, Mem, m) /\ (o.den = 0 \/ Ready(o.den))
Fits(o, m) == h[m].nout = (IF o.den = 0 THEN o.mdim ELSE dd[o.den].dim)
ObjChecks(e) == << <<"objective-dimensions", Has(e, "dims") => e.dims = <<Len(e.tr[1]), IF e.den = 0 THEN e.mdim ELSE dd[e.den].dim, Len(e.tr)>> >> >>
ObjRunChecks(e) ==
  LET o == ob[e.id]  t == OTol(o, e.map)  g == KLGrad(cf, o, e.map, o.tr)  f == KL(cf, o, e.map, o.tr) IN
  IF ~Fits(o, e.map) THEN << <<"outcome:objective", e.ret = "invalid_argument" /\ e.tret \in {"invalid_argument", "runtime_error"}>> >>
  ELSE IF ~ObjReady(o, e.map) THEN << <<"outcome:objective", e.ret = "runtime_error" /\ e.tret = "runtime_error">> >>
  ELSE << <<"outcome:objective", e.ret = "ok" /\ Len(e.train) >= 1>>,
     <<"training-error", e.ret = "ok" => \A i \in 1..Len(e.train) : FClose(e.train[i], f, t, t)>>,
     <<"training-gradient", e.ret = "ok" => \A i \in 1..Len(e.g) : VClose(e.g[i], g, t, t)>>,
     <<"test-error", IF o.te = <<>> THEN e.tret = "runtime_error" ELSE e.tret = "ok" /\ FClose(e.test, KL(cf, o, e.map, o.te), t, t)>>,
     <<"padding", e.pad>>, <<"no-side-effects", e.pure>> >>
ObjCallChecks(e) ==
  LET o == ob[e.obj]  t == OTol(o, e.id)  C == Observed(e)  s == SetOp(h, Mem, e.id, e.v) IN
  << <<"outcome:objective-call", e.ret = s.ret>>,
     <<"objective-call-value", e.ret = "ok" => FClose(e.f, KL(C, o, e.id, o.tr), t, t)>>,
     <<"objective-call-gradient", (e.ret = "ok" /\ e.wg) => VClose(e.g, KLGrad(C, o, e.id, o.tr), t, t)>>,
     <<"padding", e.pad>> >>

(* The options given are the ones in force: the optimizer called directly with them, on the same objective  *)
(* from the same start, ends at the same coefficients.  A time limit is the one option this cannot tell;     *)
(* evaluations that take a known time count it.                                                             *)
Timed(e) == FLt(e.maxtime, F1)        \* longer limits are there to end a training whose other limits are lost
InForce(e) ==
  IF ~Has(e, "rv") THEN <<>> ELSE                                  \* recorded by the C++ driver only
  << <<"training-options", (e.ret = "ok" /\ e.rret = "ok" /\ ~Timed(e)) =>
         /\ Len(e.v) = Len(e.rv)
         /\ \A i \in 1..Len(e.v) : FClose(e.v[i], e.rv[i], FDec("1e-9"), FDec("1e-9"))
         /\ FClose(e.f, e.rf, FDec("1e-9"), FDec("1e-9"))>> >>
(* Training leaves the map at coefficients whose error is the one returned, never worse than at the start. *)
Ones(n) == Vec([i \in 1..n |-> F1])
TrainChecks(e) ==
  LET o == ob[e.obj]  t == OTol(o, e.id)  C == Observed(e) IN
  << <<"outcome:train", e.ret = "ok">>,
     <<"trained-error", e.ret = "ok" => FClose(e.f, KL(C, o, e.id, o.tr), t, t)>>,
     <<"training-improves", e.ret = "ok" =>
         LET c0 == IF e.had THEN e.c0 ELSE Ones(h[e.id].nc)
             s == SetOp(h, Mem, e.id, c0)
             C0 == [i \in DOMAIN C |-> IF IsSet(h, s.m, i) THEN ValOf(h, s.m, i) ELSE <<>>]
             f0 == KL(C0, o, e.id, o.tr)
         IN FIsFinite(f0) => FLe(e.f, FAdd(f0, FMul(t, FAdd(F1, FAbs(f0)))))>> >>
QTol(e) == FMul(FI(50), FMax(FSqrt(e.ftol), e.xtol))
QVal(e, c) == FAdd(FI(3), FMul(FHalf, FSum([i \in 1..Len(c) |-> FMul(e.w[i], FSq(FSub(c[i], e.t[i])))])))
KnownAlg(a) == a \in {"LD_SLSQP", "LD_LBFGS", "LD_MMA", "LN_COBYLA", "LN_NELDERMEAD", "LD_CCSAQ", "LN_BOBYQA", "LD_VAR2", "LD_VAR1", "LD_TNEWTON", "LN_SBPLX", "LN_PRAXIS", "LN_NEWUOA"}
(* With coarse tolerances some algorithms return a point worse than their start. *)
Fine(e) == FLe(e.ftol, FDec("1e-8")) /\ FLe(e.xtol, FDec("1e-7"))
QTrainChecks(e) ==
  IF ~KnownAlg(e.alg) THEN << <<"training-refuses", e.ret = "invalid_argument" /\ e.v = (IF e.c0 = <<>> THEN e.v ELSE e.c0)>> >> ELSE
  << <<"outcome:train", e.ret = e.rret>>,
     <<"trained-error", e.ret = "ok" => FClose(e.f, QVal(e, e.v), FDec("1e-9"), FDec("1e-9"))>>,
     <<"training-improves", (e.ret = "ok" /\ e.c0 # <<>> /\ Fine(e)) => FLe(e.f, FAdd(QVal(e, e.c0), FDec("1e-9")))>>,
     <<"trained-to-optimum", (e.ret = "ok" /\ e.maxeval >= 400 /\ e.evals < e.maxeval /\ e.why # "2" /\ ~Timed(e) /\ Fine(e)) => VClose(e.v, e.t, F0, QTol(e))>>,
     <<"evaluation-limit", e.evals <= e.maxeval + 5>>,
     <<"stop-value", (e.ret = "ok" /\ e.why = "2") => FLe(e.f, e.stopval)>>,
     <<"time-limit", (Timed(e) /\ e.slow > 0) => FLe(FMul(FI(e.evals - 5), FMul(FI(e.slow), FDec("1e-6"))), e.maxtime)>> >> \o InForce(e)

----------------------------------------------------------------------------
(* Adaptive training as a state machine over the recorded calls: the log is                               *)
(*   test, (grad, test)*, and possibly one more test of the final map.                                    *)
SetOf(s) == {s[i] : i \in 1..Len(s)}
Bump(m, j) == [m EXCEPT ![j] = @ + 1]
Margin(A, d) == {b \in {Bump(m, j) : m \in A, j \in 1..d} : b \notin A /\ \A j \in 1..d : b[j] > 0 => [b EXCEPT ![j] = @ - 1] \in A}
Reaches(m, md) == md # <<>> /\ \E j \in 1..Len(m) : m[j] >= md[j]
SumSeq(s) == SumTo(s, Len(s))
MaxOf(A) == CHOOSE a \in A : \A b \in A : b <= a
AdSane(e) == /\ Len(e.init) = e.out
             /\ \A j \in 1..Len(e.init) : \A i \in 1..Len(e.init[j]) : Len(e.init[j][i]) = e.in - e.out + j
             /\ e.maxdeg = <<>> \/ Len(e.maxdeg) = e.in
Grads(e) == SelectSeq(e.log, LAMBDA x : x.op = "grad")
Tests(e) == SelectSeq(e.log, LAMBDA x : x.op = "test")
Sizes0(e) == [j \in 1..Len(e.init) |-> Len(e.init[j])]
Grown(a, b) == {j \in 1..Len(a) : b[j] = a[j] + 1}
(* Best test so far after k additions (index into Tests, 1 is the initial map), and the patience used. *)
RECURSIVE BestAt(_, _), Patience(_, _)
BestAt(T, k) == IF k = 0 THEN 1 ELSE LET b == BestAt(T, k - 1) IN IF FLt(T[k+1].err, T[b].err) THEN k + 1 ELSE b
Patience(T, k) == IF k = 0 THEN 0 ELSE IF BestAt(T, k) = k + 1 THEN 0 ELSE Patience(T, k - 1) + 1
SetsAt(e, T, k) == [j \in 1..e.out |-> SubSeq(e.final[j], 1, T[k].sizes[j])]      \* for k not beyond the best
AdaptChecks(e) ==
  IF ~AdSane(e) THEN << <<"adaptive-refuses", e.ret = "invalid_argument">> >>
  ELSE IF e.ret # "ok" THEN << <<"outcome:adaptive", FALSE>> >>
  ELSE
  LET G == Grads(e)  T == Tests(e)
      n == MaxOf({SumSeq(T[k].sizes) : k \in 1..Len(T)}) - SumSeq(Sizes0(e))       \* additions
      shape == /\ Len(e.log) >= 1 + 2 * n /\ e.log[1].op = "test"
               /\ \A k \in 1..n : e.log[2*k].op = "grad" /\ e.log[2*k+1].op = "test"
               /\ Len(G) <= n + 1 /\ Len(T) <= n + 2
      size(k) == SumSeq(T[k+1].sizes)                                             \* after k additions
      b == BestAt(T, n)
      may(k) == size(k) < e.maxsize /\ Patience(T, k) < e.patience                \* may go on after k additions
      S(k) == SetsAt(e, T, k + 1)
      known(k) == k < b                                                           \* the sets after k additions are known
      cands(k) == LET s == S(k) IN UNION {{<<j, m>> : m \in {m \in Margin(SetOf(s[j]), e.in - e.out + j) : ~Reaches(m, e.maxdeg)}} : j \in 1..e.out}
      exsz(g) == [j \in 1..e.out |-> Len(g.exp[j])]
      off(g, j) == SumTo(exsz(g), j - 1)
      gv(g, j, m) == LET p == CHOOSE p \in 1..Len(g.exp[j]) : g.exp[j][p] = m IN FAbs(g.g[off(g, j) + p])
      coef(t, s, j, m) == LET p == CHOOSE p \in 1..Len(s[j]) : s[j][p] = m IN t.c[SumTo([i \in 1..e.out |-> Len(s[i])], j - 1) + p]
  IN IF ~shape THEN << <<"adaptive-steps", FALSE>> >> ELSE
  << <<"adaptive-initial-map", T[1].sizes = Sizes0(e)>>,
     <<"adaptive-adds-one-term", \A k \in 1..n : Cardinality(Grown(T[k].sizes, T[k+1].sizes)) = 1 /\ SumSeq(T[k+1].sizes) = SumSeq(T[k].sizes) + 1>>,
     <<"adaptive-goes-on-only-if-allowed", \A k \in 0..n-1 : may(k)>>,
     <<"adaptive-stops-only-when-done", may(n) => (known(n) => cands(n) = {})>>,
     <<"adaptive-size-limit", SumSeq(T[Len(T)].sizes) <= IF SumSeq(Sizes0(e)) > e.maxsize THEN SumSeq(Sizes0(e)) ELSE e.maxsize>>,
     <<"adaptive-keeps-initial-terms", \A j \in 1..e.out : Len(e.final[j]) >= Len(e.init[j]) /\ SubSeq(e.final[j], 1, Len(e.init[j])) = e.init[j]>>,
     <<"adaptive-returns-best", /\ \A j \in 1..e.out : Len(e.final[j]) = T[b].sizes[j]
                                /\ e.fsizes = T[b].sizes /\ e.dims = <<e.in, e.out, SumSeq(T[b].sizes)>>>>,
     <<"adaptive-expansion", \A k \in 1..n : (known(k-1) /\ G[k].exp # <<>>) =>
         /\ G[k].sizes = exsz(G[k])
         /\ \A j \in 1..e.out : SetOf(G[k].exp[j]) = SetOf(S(k-1)[j]) \cup Margin(SetOf(S(k-1)[j]), e.in - e.out + j)>>,
     <<"adaptive-gradient-at-current-map", \A k \in 1..n : (known(k-1) /\ G[k].exp # <<>>) =>
         \A j \in 1..e.out : \A p \in 1..Len(G[k].exp[j]) :
            LET m == G[k].exp[j][p]  s == S(k-1)  c == G[k].c[off(G[k], j) + p] IN
            c = IF m \in SetOf(s[j]) THEN coef(T[k], s, j, m) ELSE F0>>,
     <<"adaptive-largest-gradient", \A k \in 1..n : (known(k) /\ G[k].exp # <<>> /\ Cardinality(Grown(T[k].sizes, T[k+1].sizes)) = 1) =>
         LET j == CHOOSE j \in Grown(T[k].sizes, T[k+1].sizes) : TRUE  m == e.final[j][T[k+1].sizes[j]] IN
         /\ <<j, m>> \in cands(k-1)
         /\ \A c \in cands(k-1) : FLe(gv(G[k], c[1], c[2]), gv(G[k], j, m))>>,
     <<"adaptive-trained", /\ \A k \in 1..Len(T) : VClose(T[k].c, T[k].t, F0, QTol(e))
                           /\ VClose(e.c, e.t, F0, QTol(e))>> >>

(* Adaptive training as seen from outside: the map it returns, on the sets it leaves behind. *)
PHeap(e) == LET n == Len(e.final)  kid(i) == e.id * 10 + i
                h1 == [c \in {kid(i) : i \in 1..n} |-> MonoNode(e.opts, e.final[c - e.id * 10], Len(e.init[c - e.id * 10][1]))] @@ h
            IN (e.id :> ContNode(h1, "tri", [i \in 1..n |-> kid(i)])) @@ h1
PMem(e, hh) == LET m1 == Fresh(Mem, Observed(e)[e.id]) IN Wrap(hh, m1, e.id, m1.nb, 0)
PAdaptChecks(e) ==
  IF e.ret # "ok" THEN << <<"outcome:adaptive", FALSE>> >>
  ELSE LET hh == PHeap(e)  o == ob[e.obj]  t == FMul(FI(10), Tol(hh, e.id))  C == Observed(e)  n == Len(e.init) IN
  << <<"adaptive-keeps-initial-terms", Len(e.final) = n /\ \A j \in 1..n : Len(e.final[j]) >= Len(e.init[j]) /\ SubSeq(e.final[j], 1, Len(e.init[j])) = e.init[j]>>,
     <<"adaptive-adds-admissible-terms", \A j \in 1..n : \A k \in Len(e.init[j])+1..Len(e.final[j]) :
           e.final[j][k] \in Margin({e.final[j][i] : i \in 1..k-1}, Len(e.init[j][1]))>>,
     <<"adaptive-size-limit", LET a == SumSeq([j \in 1..n |-> Len(e.init[j])]) IN SumSeq([j \in 1..n |-> Len(e.final[j])]) <= IF a > e.maxsize THEN a ELSE e.maxsize>>,
     <<"adaptive-map", e.dims = DimsOf(hh[e.id])>>,
     <<"trained-error", e.dims = DimsOf(hh[e.id]) => FClose(e.f, FDiv(FSum([p \in 1..Len(o.tr) |->
            LET y == Eval(hh, C, e.id, o.tr[p]) IN FNeg(FAdd(GLog(StdNode(o.mdim), y), LogDet(hh, C, e.id, o.tr[p])))]), FI(Len(o.tr))), t, t)>> >>

----------------------------------------------------------------------------
DOps == {"gauss", "pull", "push", "dens", "densf", "samp", "obj", "objrun", "objcall", "train", "qtrain", "adapt", "padapt"}
DChecks(e) ==
  CASE e.op \in {"gauss", "pull", "push"} -> LET m == MakeDen(e) IN
         << <<"construct", e.ret = m.ret>>, <<"dimensions", (e.ret = "ok" /\ m.ret = "ok") => e.gotdim = m.nd.dim>> >>
    [] e.op \in {"dens", "densf"} -> DensChecks(e)
    [] e.op = "samp" -> SampChecks(e)
    [] e.op = "obj" -> ObjChecks(e)
    [] e.op = "objrun" -> ObjRunChecks(e)
    [] e.op = "objcall" -> ObjCallChecks(e)
    [] e.op = "train" -> TrainChecks(e)
    [] e.op = "qtrain" -> QTrainChecks(e)
    [] e.op = "adapt" -> AdaptChecks(e)
    [] e.op = "padapt" -> PAdaptChecks(e)
(* Training sets the coefficients of the trained map. *)
DAfter(e) == IF (e.op = "objcall" /\ e.ret = "ok") \/ (e.op \in {"train", "qtrain"} /\ e.v # <<>>) THEN SetOp(h, Mem, e.id, e.v).m
             ELSE IF e.op = "padapt" /\ e.ret = "ok" THEN PMem(e, PHeap(e)) ELSE Mem
DHeap(e) == IF e.op = "padapt" /\ e.ret = "ok" THEN PHeap(e) ELSE h
DCoeffs(e, m) == IF Has(e, "cv") THEN CoeffChecks(e, [h |-> DHeap(e), m |-> m]) ELSE <<>>

DInit == Init /\ dd = <<>> /\ ob = <<>>
DNext ==
  IF l <= Len(Trace) /\ E.op \in DOps
  THEN /\ l' = l + 1
       /\ LET m == DAfter(E) IN
          /\ Report(l, Failing(DChecks(E) \o DCoeffs(E, m)))
          /\ h' = DHeap(E)
          /\ own' = m.own /\ buf' = m.buf /\ nb' = m.nb
       /\ cf' = IF Has(E, "cv") THEN Observed(E) ELSE cf
       /\ dd' = IF E.op \in {"gauss", "pull", "push"} /\ E.ret = "ok" THEN (E.id :> MakeDen(E).nd) @@ dd ELSE dd
       /\ ob' = IF E.op = "obj" THEN (E.id :> [tr |-> E.tr, te |-> E.te, den |-> E.den, mdim |-> E.mdim]) @@ ob ELSE ob
       /\ UNCHANGED <<fs, vw, gone>>
  ELSE Next /\ IF l <= Len(Trace) /\ E.op = "reset" THEN dd' = <<>> /\ ob' = <<>> ELSE UNCHANGED <<dd, ob>>
DSpec == DInit /\ [][DNext]_dvars
=============================================================================
