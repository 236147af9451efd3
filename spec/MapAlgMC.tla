------------------------------ MODULE MapAlgMC ------------------------------
(* The specification's derivative formulas against its own values: every formula of MapAlg that the real code is  *)
(* judged by is compared, instance by instance, with extrapolated central differences of the specified value it   *)
(* claims to be the derivative of.  An instance is a line [nodes, cf, id, x, s].                                   *)
EXTENDS MapAlg, TraceKit
VARIABLE l
Full(nd) == IF nd.k \in {"mono", "exp"} THEN nd @@ [mo |-> MaxOrders(nd.ms, nd.dim)] ELSE nd
Heap(c) == [i \in {c.nodes[k].id : k \in 1..Len(c.nodes)} |-> Full((CHOOSE q \in {c.nodes[k] : k \in 1..Len(c.nodes)} : q.id = i).nd)]
Coefs(c) == [i \in {c.cf[k].id : k \in 1..Len(c.cf)} |-> (CHOOSE q \in {c.cf[k] : k \in 1..Len(c.cf)} : q.id = i).w]

Hs == FDec("1e-3")
(* F: step -> value; the derivative at zero to fourth order. *)
Diff(F(_)) == LET D(h) == FDiv(FSub(F(h), F(FNeg(h))), FAdd(h, h))
              IN FDiv(FSub(FMul(FI(4), D(FMul(FHalf, Hs))), D(Hs)), FI(3))
Shift(v, j, t) == Vec([i \in 1..Len(v) |-> IF i = j THEN FAdd(v[i], t) ELSE v[i]])
RECURSIVE LeafIds(_, _)
LeafIds(h, id) == LET nd == h[id] IN
  CASE nd.k \in {"tri", "comp"} -> Concat([i \in 1..Len(nd.ch) |-> LeafIds(h, nd.ch[i])])
    [] nd.k = "sum" -> LeafIds(h, nd.g)
    [] OTHER -> IF nd.nc = 0 THEN <<>> ELSE <<id>>
(* The k-th coefficient of an object: <<leaf, place>>. *)
RECURSIVE Where(_, _, _)
Where(h, ls, k) == IF k <= h[ls[1]].nc THEN <<ls[1], k>> ELSE Where(h, Tail(ls), k - h[ls[1]].nc)
ShiftC(h, cf, id, k, t) == LET p == Where(h, LeafIds(h, id), k) IN [cf EXCEPT ![p[1]] = Shift(@, p[2], t)]

Near(v, F(_, _), n, scale) == Len(v) = n /\ \A j \in 1..n : LET G(t) == F(j, t) IN FLe(FAbs(FSub(v[j], Diff(G))), FMul(FDec("1e-6"), FAdd(scale, FAbs(v[j]))))
DotS(h, cf, c, x) == FDot(c.s, Eval(h, cf, c.id, x))
Checks(c) ==
  LET h == Heap(c)  cf == Coefs(c)  nd == h[c.id]  x == c.x
      sc == FAdd(F1, FMaxAbs(Eval(h, cf, c.id, x)))
      ld == LogDet(h, cf, c.id, x)
      ls == FAdd(F1, FAbs(ld))
      XV(j, t) == DotS(h, cf, c, Shift(x, j, t))
      WV(k, t) == DotS(h, ShiftC(h, cf, c.id, k, t), c, x)
      XL(j, t) == LogDet(h, cf, c.id, Shift(x, j, t))
      WL(k, t) == LogDet(h, ShiftC(h, cf, c.id, k, t), c.id, x)
  IN << <<"input-gradient", Near(VJP(h, cf, c.id, x, c.s), XV, nd.nin, sc)>>,
        <<"coefficient-gradient", Near(CVJP(h, cf, c.id, x, c.s), WV, nd.nc, sc)>> >>
     \o (IF ~c.square THEN <<>> ELSE
          << <<"logdet-coefficient-gradient", DiscComp(h, c.id) \/ Near(LDW(h, cf, c.id, x), WL, nd.nc, ls)>>,
             <<"logdet-input-gradient", ContAll(h, c.id) => Near(LDX(h, cf, c.id, x), XL, nd.nin, ls)>>,
             (* the log determinant itself: of the matrix of differences of the value in the last inputs *)
             <<"logdet", c.exact => LET J == Vec([i \in 1..nd.nout |-> Vec([j \in 1..nd.nout |->
                                        LET G(t) == Eval(h, cf, c.id, Shift(x, nd.nin - nd.nout + j, t))[i] IN Diff(G)])])
                                    IN FLe(FAbs(FSub(LogAbsDet(J), ld)), FMul(FDec("1e-5"), ls))>>,
             <<"inverse", InvOK(h, cf, c.id, SubSeq(x, 1, nd.nin - nd.nout), Eval(h, cf, c.id, x), SubSeq(x, nd.nin - nd.nout + 1, nd.nin))>> >>)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Checks(Trace[l])))
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
