------------------------------- MODULE Parts -------------------------------
(* Containers as combinations of parts they know nothing about.  A part is a  *)
(* map over the integers modulo P chosen so that every mistake shows: each of  *)
(* its outputs depends on every input, and its derivatives are arbitrary       *)
(* integers with no relation to its values.  What a container computes is      *)
(* then an exact integer, defined here by the chain rule alone.                *)
EXTENDS Integers, Sequences, TLC
P == 1009
Inv17 == 831

Strict(v) == TLCEval(v)         \* the same sequence, evaluated once
RECURSIVE SumFrom(_, _), CatFrom(_, _)
SumFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumFrom(s, i + 1)
CatFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o CatFrom(ss, i + 1)
ISum(s) == LET v == Strict(s) IN SumFrom(v, 1)
ICat(ss) == LET v == Strict(ss) IN CatFrom(v, 1)
ZeroV(n) == Strict([i \in 1..n |-> 0])
AddV(a, b) == Strict([i \in 1..Len(a) |-> a[i] + b[i]])
SumV(vs, n) == LET v == Strict(vs) IN Strict([j \in 1..n |-> SumFrom([i \in 1..Len(v) |-> v[i][j]], 1)])
PadTo(v, n) == Strict([i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE 0])

----------------------------------------------------------------------------
(* A part: nd = [k, l, nin, nout, nc]; w its coefficients. *)
W(w) == ISum([k \in 1..Len(w) |-> k * w[k]])
Own(nd, j) == IF nd.nout <= nd.nin THEN nd.nin - nd.nout + j ELSE ((j - 1) % nd.nin) + 1
Rest(nd, w, x, j) ==        \* everything but the own input
  ISum([k \in 1..(IF nd.nout < nd.nin THEN nd.nin - nd.nout ELSE 0) |-> (3 + k + nd.l) * x[k]])
  + ISum([k \in 1..(IF nd.nout <= nd.nin THEN j - 1 ELSE 0) |-> (5 + k) * x[nd.nin - nd.nout + k]])
  + 29 * nd.l + 7 * j + W(w)
PEval(nd, w, x) == Strict([j \in 1..nd.nout |-> (17 * x[Own(nd, j)] + Rest(nd, w, x, j)) % P])
RECURSIVE PSolve(_, _, _, _, _)
PSolve(nd, w, head, r, j) == IF j > nd.nout THEN head
  ELSE PSolve(nd, w, Append(head, (Inv17 * ((r[j] - Rest(nd, w, head, j)) % P)) % P), r, j + 1)
PInv(nd, w, x1, r) == SubSeq(PSolve(nd, w, SubSeq(x1, 1, nd.nin - nd.nout), r, 1), nd.nin - nd.nout + 1, nd.nin)
PGrad(nd, w, x, s) == Strict([i \in 1..nd.nin |-> ISum([j \in 1..nd.nout |-> s[j] * (((nd.l + i + 2 * j + x[1] + x[nd.nin] + W(w)) % 3) - 1)])])
PCGrad(nd, w, x, s) == Strict([k \in 1..nd.nc |-> ISum([j \in 1..nd.nout |-> s[j] * (((nd.l + 2 * k + j + x[1] + 2 * x[nd.nin] + W(w)) % 5) - 2)])])
PLogDet(nd, w, x) == ((nd.l + 2 * x[1] + 3 * x[nd.nin] + W(w)) % 7) - 3
PLDX(nd, w, x) == Strict([i \in 1..nd.nin |-> ((nd.l + 3 * i + x[1] + x[nd.nin] + W(w)) % 5) - 2])
PLDW(nd, w, x) == Strict([k \in 1..nd.nc |-> ((2 * nd.l + k + x[1] + W(w)) % 5) - 2])
(* A density over the same points. *)
Dens(x) == ((3 * x[1] + 5 * x[Len(x)] + ISum(x)) % 11) - 5
DensX(x) == Strict([i \in 1..Len(x) |-> ((x[1] + 2 * i + x[i]) % 5) - 2])

----------------------------------------------------------------------------
(* Containers: h maps ids to nodes, cf ids of parts to coefficients. *)
OutsBefore(h, ch, i) == ISum([k \in 1..i-1 |-> h[ch[k]].nout])
Ins(h, id, x) == SubSeq(x, 1, h[id].nin)
RECURSIVE TE(_, _, _, _), TV(_, _, _, _, _), TC(_, _, _, _, _), TL(_, _, _, _), TX(_, _, _, _), TW(_, _, _, _), TI(_, _, _, _, _)
Summ(h, cf, nd, x) == TE(h, cf, nd.f, SubSeq(x, 1, Len(x) - 1)) \o <<x[Len(x)]>>
RECURSIVE Along(_, _, _, _)
Along(h, cf, ch, xs) == IF Len(xs) > Len(ch) THEN xs ELSE Along(h, cf, ch, Append(xs, TE(h, cf, ch[Len(xs)], xs[Len(xs)])))
TE(h, cf, id, x) == LET nd == h[id] IN
  CASE nd.k = "part" -> PEval(nd, cf[id], x)
    [] nd.k = "tri" -> ICat([i \in 1..Len(nd.ch) |-> TE(h, cf, nd.ch[i], Ins(h, nd.ch[i], x))])
    [] nd.k = "comp" -> Along(h, cf, nd.ch, <<x>>)[Len(nd.ch) + 1]
    [] nd.k = "sum" -> TE(h, cf, nd.g, Summ(h, cf, nd, x))
(* s^T dT/dx *)
RECURSIVE DownX(_, _, _, _, _, _), DownW(_, _, _, _, _, _)
TV(h, cf, id, x, s) == LET nd == h[id] IN
  CASE nd.k = "part" -> PGrad(nd, cf[id], x, s)
    [] nd.k = "tri" -> SumV([i \in 1..Len(nd.ch) |-> LET o == OutsBefore(h, nd.ch, i) IN
                          PadTo(TV(h, cf, nd.ch[i], Ins(h, nd.ch[i], x), SubSeq(s, o + 1, o + h[nd.ch[i]].nout)), nd.nin)], nd.nin)
    [] nd.k = "comp" -> DownX(h, cf, nd.ch, Along(h, cf, nd.ch, <<x>>), Len(nd.ch), s)
    [] nd.k = "sum" -> LET v == TV(h, cf, nd.g, Summ(h, cf, nd, x), s)  n == h[nd.f].nout IN
                       TV(h, cf, nd.f, SubSeq(x, 1, Len(x) - 1), SubSeq(v, 1, n)) \o <<v[n + 1]>>
DownX(h, cf, ch, L, i, s) == IF i = 0 THEN s ELSE DownX(h, cf, ch, L, i - 1, TV(h, cf, ch[i], L[i], s))
(* s^T dT/dw *)
TC(h, cf, id, x, s) == LET nd == h[id] IN
  CASE nd.k = "part" -> PCGrad(nd, cf[id], x, s)
    [] nd.k = "tri" -> ICat([i \in 1..Len(nd.ch) |-> LET o == OutsBefore(h, nd.ch, i) IN
                          TC(h, cf, nd.ch[i], Ins(h, nd.ch[i], x), SubSeq(s, o + 1, o + h[nd.ch[i]].nout))])
    [] nd.k = "comp" -> DownW(h, cf, nd.ch, Along(h, cf, nd.ch, <<x>>), Len(nd.ch), s)
    [] nd.k = "sum" -> TC(h, cf, nd.g, Summ(h, cf, nd, x), s)
DownW(h, cf, ch, L, i, s) == IF i = 0 THEN <<>> ELSE DownW(h, cf, ch, L, i - 1, TV(h, cf, ch[i], L[i], s)) \o TC(h, cf, ch[i], L[i], s)
(* log |det| and its gradients *)
TL(h, cf, id, x) == LET nd == h[id] IN
  CASE nd.k = "part" -> PLogDet(nd, cf[id], x)
    [] nd.k = "tri" -> ISum([i \in 1..Len(nd.ch) |-> TL(h, cf, nd.ch[i], Ins(h, nd.ch[i], x))])
    [] nd.k = "comp" -> LET L == Along(h, cf, nd.ch, <<x>>) IN ISum([i \in 1..Len(nd.ch) |-> TL(h, cf, nd.ch[i], L[i])])
    [] nd.k = "sum" -> TL(h, cf, nd.g, Summ(h, cf, nd, x))
(* In a composition: a is the gradient of what lies above layer i with respect to its output. *)
RECURSIVE DownLX(_, _, _, _, _, _), DownLW(_, _, _, _, _, _)
TX(h, cf, id, x) == LET nd == h[id] IN
  CASE nd.k = "part" -> PLDX(nd, cf[id], x)
    [] nd.k = "tri" -> SumV([i \in 1..Len(nd.ch) |-> PadTo(TX(h, cf, nd.ch[i], Ins(h, nd.ch[i], x)), nd.nin)], nd.nin)
    [] nd.k = "comp" -> DownLX(h, cf, nd.ch, Along(h, cf, nd.ch, <<x>>), Len(nd.ch), ZeroV(nd.nin))
    [] nd.k = "sum" -> LET v == TX(h, cf, nd.g, Summ(h, cf, nd, x))  n == h[nd.f].nout IN
                       TV(h, cf, nd.f, SubSeq(x, 1, Len(x) - 1), SubSeq(v, 1, n)) \o <<v[n + 1]>>
DownLX(h, cf, ch, L, i, a) == IF i = 0 THEN a ELSE DownLX(h, cf, ch, L, i - 1, AddV(TV(h, cf, ch[i], L[i], a), TX(h, cf, ch[i], L[i])))
TW(h, cf, id, x) == LET nd == h[id] IN
  CASE nd.k = "part" -> PLDW(nd, cf[id], x)
    [] nd.k = "tri" -> ICat([i \in 1..Len(nd.ch) |-> TW(h, cf, nd.ch[i], Ins(h, nd.ch[i], x))])
    [] nd.k = "comp" -> DownLW(h, cf, nd.ch, Along(h, cf, nd.ch, <<x>>), Len(nd.ch), ZeroV(nd.nin))
    [] nd.k = "sum" -> TW(h, cf, nd.g, Summ(h, cf, nd, x))
DownLW(h, cf, ch, L, i, a) == IF i = 0 THEN <<>>
  ELSE DownLW(h, cf, ch, L, i - 1, AddV(TV(h, cf, ch[i], L[i], a), TX(h, cf, ch[i], L[i])))
       \o AddV(TC(h, cf, ch[i], L[i], a), TW(h, cf, ch[i], L[i]))
(* The last outputs' inputs from the first inputs x1 and the outputs r. *)
RECURSIVE UpTri(_, _, _, _, _, _, _), DownInv(_, _, _, _, _)
TI(h, cf, id, x1, r) == LET nd == h[id] IN
  CASE nd.k = "part" -> PInv(nd, cf[id], x1, r)
    [] nd.k = "tri" -> SubSeq(UpTri(h, cf, nd.ch, 1, SubSeq(x1, 1, nd.nin - nd.nout), r, 0), nd.nin - nd.nout + 1, nd.nin)
    [] nd.k = "comp" -> DownInv(h, cf, nd.ch, Len(nd.ch), r)
    [] nd.k = "sum" -> TI(h, cf, nd.g, TE(h, cf, nd.f, SubSeq(x1, 1, nd.nin - 1)), r)
UpTri(h, cf, ch, i, head, r, o) == IF i > Len(ch) THEN head
  ELSE UpTri(h, cf, ch, i + 1, head \o TI(h, cf, ch[i], head, SubSeq(r, o + 1, o + h[ch[i]].nout)), r, o + h[ch[i]].nout)
DownInv(h, cf, ch, i, r) == IF i = 0 THEN r ELSE DownInv(h, cf, ch, i - 1, TI(h, cf, ch[i], <<>>, r))

(* Densities and objectives over a map. *)
PullD(h, cf, id, x) == Dens(TE(h, cf, id, x)) + TL(h, cf, id, x)
PullX(h, cf, id, x) == AddV(TV(h, cf, id, x, DensX(TE(h, cf, id, x))), TX(h, cf, id, x))
PullW(h, cf, id, x) == AddV(TC(h, cf, id, x, DensX(TE(h, cf, id, x))), TW(h, cf, id, x))
PushD(h, cf, id, r) == LET x == TI(h, cf, id, <<>>, r) IN Dens(x) - TL(h, cf, id, x)

----------------------------------------------------------------------------
(* Coefficients of a container: those of its parts, in order. *)
RECURSIVE Leaves(_, _)
Leaves(h, id) == LET nd == h[id] IN
  CASE nd.k = "part" -> <<id>>
    [] nd.k \in {"tri", "comp"} -> ICat([i \in 1..Len(nd.ch) |-> Leaves(h, nd.ch[i])])
    [] nd.k = "sum" -> Leaves(h, nd.g)
RECURSIVE Spread(_, _, _, _, _)
Spread(h, cf, ls, i, v) == IF i > Len(ls) THEN cf
  ELSE LET n == h[ls[i]].nc IN Spread(h, [cf EXCEPT ![ls[i]] = SubSeq(v, 1, n)], ls, i + 1, SubSeq(v, n + 1, Len(v)))
SetAll(h, cf, id, v) == Spread(h, cf, Leaves(h, id), 1, v)
=============================================================================
