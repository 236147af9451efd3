------------------------------ MODULE Numerics ------------------------------
(* One-dimensional integrands, quadrature by recursive bisection, and what  *)
(* it means to solve a monotone equation.                                   *)
EXTENDS MapAlg

----------------------------------------------------------------------------
(* The scalar functions the drivers and the specification share. *)
RECURSIVE Horner(_, _, _)
Horner(p, i, x) == IF i > Len(p) THEN F0 ELSE FAdd(p[i], FMul(x, Horner(p, i + 1, x)))
FRound(a) == FFloor(FAdd(a, FHalf))
Fn(f, x) ==
  LET p == f.p IN
  CASE f.t = "poly" -> Horner(p, 1, x)
    [] f.t = "exp" -> FMul(p[1], FExp(FMul(p[2], x)))
    [] f.t = "cos" -> FMul(p[1], FCos(FMul(p[2], x)))
    [] f.t = "gauss" -> FMul(p[1], FExp(FNeg(FMul(p[2], FSq(FSub(x, p[3]))))))
    [] f.t = "abs" -> FMul(p[1], FAbs(FSub(x, p[2])))
    [] f.t = "logi" -> FAdd(FDiv(p[1], FAdd(F1, FExp(FNeg(FMul(p[2], FSub(x, p[3])))))), p[4])
    [] f.t = "step" -> FAdd(FMul(p[1], x), IF FLt(p[2], x) THEN p[3] ELSE F0)
    [] f.t = "kink" -> FMul(IF FLt(x, p[2]) THEN p[1] ELSE p[3], FSub(x, p[2]))
    [] f.t = "mono" -> LET nd == p[1] IN      \* the integrand of a monotone component over the unit interval
         FMul(p[3], FAdd(nd.nug, Pos(nd.pos, FDot(p[2], BDer(nd.b, K(nd), FMul(x, p[3]))))))
    [] f.t = "tab" -> p[3 + FRound(FDiv(FSub(x, p[1]), FDiv(FSub(p[2], p[1]), FI(Len(p) - 3))))]
Fns(fs, x) == Vec([i \in 1..Len(fs) |-> Fn(fs[i], x)])

----------------------------------------------------------------------------
(* Recursive bisection.  q = [rule, np, maxsub, minsub, atol, rtol, metric]; never deeper than 64 levels. *)
MaxLevel(q) == IF q.maxsub > 64 THEN 63 ELSE q.maxsub - 1
Metric(m, v) == CASE m = "first" -> FAbs(v[1])
                  [] m = "inf" -> FMaxAbs(v)
                  [] m = "two" -> FSqrt(FSum([i \in 1..Len(v) |-> FSq(v[i])]))
                  [] m = "one" -> FSum([i \in 1..Len(v) |-> FAbs(v[i])])
Accept(q, c, f, level, tiny) ==
  \/ tiny
  \/ /\ level >= q.minsub
     /\ \/ level = MaxLevel(q)
        \/ FLt(Metric(q.metric, VSub(f, c)), FMax(FMul(q.rtol, Metric(q.metric, c)), q.atol))

Mid(a, b) == FMul(FHalf, FAdd(a, b))
Simpson(a, b, fa, fm, fb) == VScale(FDiv(FSub(b, a), FI(6)), VAdd(fa, VAdd(VScale(FI(4), fm), fb)))
RECURSIVE ASimp(_, _, _, _, _, _, _, _, _)
ASimp(q, fs, a, b, fa, fm, fb, level, tiny) ==
  LET m == Mid(a, b)  fl == Fns(fs, Mid(a, m))  fr == Fns(fs, Mid(m, b))
      coarse == Simpson(a, b, fa, fm, fb)
      fine == VAdd(Simpson(a, m, fa, fl, fm), Simpson(m, b, fm, fr, fb))
  IN IF Accept(q, coarse, fine, level, tiny) THEN fine
     ELSE VAdd(ASimp(q, fs, a, m, fa, fl, fm, level + 1, tiny), ASimp(q, fs, m, b, fm, fr, fb, level + 1, tiny))

CCInt(n, fs, a, b) ==
  LET h == FMul(FHalf, FSub(b, a))  R == CCTab[n]
      V == Vec([i \in 1..n |-> Fns(fs, FAdd(Mid(a, b), FMul(h, R[1][i])))])
  IN Vec([j \in 1..Len(fs) |-> FMul(h, FSum([i \in 1..n |-> FMul(R[2][i], V[i][j])]))])
RECURSIVE ACC(_, _, _, _, _, _)
ACC(q, fs, a, b, level, tiny) ==
  LET coarse == CCInt(2^q.np + 1, fs, a, b)  fine == CCInt(2^(q.np + 1) + 1, fs, a, b)  m == Mid(a, b)
  IN IF Accept(q, coarse, fine, level, tiny) THEN fine
     ELSE VAdd(ACC(q, fs, a, m, level + 1, tiny), ACC(q, fs, m, b, level + 1, tiny))

Tiny(a, b) == FLt(FAbs(FSub(b, a)), FDec("1e-14"))
Quad(q, fs, a, b) ==
  CASE q.rule = "cc" -> CCInt(q.np, fs, a, b)
    [] q.rule = "as" -> ASimp(q, fs, a, b, Fns(fs, a), Fns(fs, Mid(a, b)), Fns(fs, b), 0, Tiny(a, b))
    [] q.rule = "acc" -> ACC(q, fs, a, b, 0, Tiny(a, b))
(* The magnitude rounding errors are relative to. *)
QScale(fs, a, b) == FMul(FAdd(F1, FAbs(FSub(b, a))), FAdd(F1, FMax(FMaxAbs(Fns(fs, a)), FMax(FMaxAbs(Fns(fs, Mid(a, b))), FMaxAbs(Fns(fs, b))))))

----------------------------------------------------------------------------
(* x solves f(x) = y to a tolerance in x or in value, for nondecreasing f. *)
Loose(t) == FMul(t, FDec("1.000001"))
Solves(f, x, y, xtol, ftol) ==
  /\ FIsFinite(x)
  /\ LET u == FMul(FDec("4e-16"), FAbs(x)) IN     \* the spacing of floats at x
     /\ FLe(FSub(Fn(f, FSub(x, FAdd(u, Loose(xtol)))), Loose(ftol)), y)
     /\ FLe(y, FAdd(Fn(f, FAdd(x, FAdd(u, Loose(xtol)))), Loose(ftol)))
(* f takes values on both sides of y. *)
Far == FDec("1e8")
Reachable(f, y) == FLe(Fn(f, FNeg(Far)), y) /\ FLe(y, Fn(f, Far))
(* How many doublings and halvings a bracketing search needs. *)
Log2Up(a) == IF FLe(a, F1) THEN 0 ELSE 1 + FFloor(FDiv(FLog(a), FLog(F2)))
=============================================================================
