------------------------------ MODULE TraceMap ------------------------------
(* Conformance of parameterized functions and maps: construction, the       *)
(* ownership of coefficients, evaluation, derivatives, inverses, batching   *)
(* and serialization, against MapAlg and the coefficient memory below.      *)
EXTENDS Numerics, CoeffMem, TraceKit

VARIABLES l,      \* next trace line
          h,      \* object id -> node
          own,    \* object id -> <<buffer, offset>>; buffer 0: no coefficients yet
          buf,    \* buffer id -> floats; positive ids belong to the user
          cf,     \* object id -> the coefficients last observed
          nb,     \* the last internal buffer id (negative)
          fs,     \* file -> sequence of saved snapshots
          vw,     \* arrays kept by the user: id -> where they lie (Python)
          gone    \* the objects the user no longer holds (Python)

vars == <<l, h, own, buf, cf, nb, fs, vw, gone>>
E == Trace[l]
Mem == [own |-> own, buf |-> buf, nb |-> nb]

----------------------------------------------------------------------------
(* Construction. *)
BasisOf(o) == [t |-> o.basis, nrm |-> o.nrm, lb |-> o.lb, ub |-> o.ub]
RECURSIVE Log2Down(_)
Log2Down(n) == IF n <= 1 THEN 0 ELSE 1 + Log2Down(n \div 2)
QuadOf(o) == [t |-> o.quad, n |-> o.npts, tol |-> FMax(o.atol, o.rtol),
              atol |-> o.atol, rtol |-> o.rtol, maxsub |-> o.maxsub, minsub |-> o.minsub, metric |-> "first",
              rule |-> o.quad, np |-> IF o.quad = "acc" /\ o.npts > 2 THEN Log2Down(o.npts - 2) ELSE o.npts]
MonoNode(o, ms, d) == [k |-> "mono", b |-> BasisOf(o), ms |-> ms, mo |-> MaxOrders(ms, d), dim |-> d, pos |-> o.pos, q |-> QuadOf(o),
                       cont |-> o.cont, nug |-> o.nug, nin |-> d, nout |-> 1, nc |-> Len(ms)]
ExpNode(o, ms, d, od) == [k |-> "exp", b |-> BasisOf(o), ms |-> ms, mo |-> MaxOrders(ms, d), dim |-> d, nin |-> d, nout |-> od, nc |-> od * Len(ms)]
AffNode(e) == [k |-> "aff", A |-> IF e.r = 0 THEN <<>> ELSE e.A, bb |-> e.b, nin |-> IF e.r = 0 THEN Len(e.b) ELSE e.c,
               nout |-> IF e.r = 0 THEN Len(e.b) ELSE e.r, nc |-> 0]
IdNode(i, o) == [k |-> "id", nin |-> i, nout |-> o, nc |-> 0]
ContNode(hh, kind, ch) ==
  [k |-> kind, ch |-> ch, nin |-> IF kind = "tri" THEN hh[ch[Len(ch)]].nin ELSE hh[ch[1]].nin,
   nout |-> IF kind = "tri" THEN SumTo([i \in 1..Len(ch) |-> hh[ch[i]].nout], Len(ch)) ELSE hh[ch[1]].nin,
   nc |-> SumTo([i \in 1..Len(ch) |-> hh[ch[i]].nc], Len(ch))]
SumNode(hh, f, g) == [k |-> "sum", f |-> f, g |-> g, nin |-> hh[f].nin + 1, nout |-> hh[g].nout, nc |-> hh[g].nc]

TriOK(hh, ch) == /\ \A i \in 1..Len(ch) : hh[ch[i]].nout <= hh[ch[i]].nin
                 /\ \A i \in 2..Len(ch) : hh[ch[i]].nin = hh[ch[i-1]].nin + hh[ch[i]].nout
CompOK(hh, ch) == \A i \in 1..Len(ch) : hh[ch[i]].nin = hh[ch[i]].nout /\ hh[ch[i]].nin = hh[ch[1]].nin

(* Multi-indices of total order at most p in d dimensions. *)
RECURSIVE Totals(_, _)
Totals(d, p) == IF d = 0 THEN {<<>>} ELSE UNION {{<<k>> \o m : m \in Totals(d - 1, p - k)} : k \in 0..p}

Zeros(n) == VZero(n)
(* What a construction event makes: the new heap, memory and outcome. *)
Make(e) ==
  CASE e.op = "dmono" -> [ret |-> "ok", h |-> (e.id :> MonoNode(e.opts, e.ms, e.dim)) @@ h, m |-> [Mem EXCEPT !.own = (e.id :> <<0, 0>>) @@ @]]
    [] e.op = "mono" -> LET hh == (e.id :> MonoNode(e.opts, e.ms, e.dim)) @@ h  m1 == Fresh(Mem, Zeros(Len(e.ms)))
                        IN [ret |-> "ok", h |-> hh, m |-> Wrap(hh, m1, e.id, m1.nb, 0)]
    [] e.op = "exp" -> LET hh == (e.id :> ExpNode(e.opts, e.ms, e.dim, e.od)) @@ h  m1 == Fresh(Mem, Zeros(e.od * Len(e.ms)))
                       IN [ret |-> "ok", h |-> hh, m |-> Wrap(hh, m1, e.id, m1.nb, 0)]
    [] e.op \in {"aff", "afun"} ->
         IF e.r # 0 /\ Len(e.b) # 0 /\ Len(e.b) # e.r THEN [ret |-> "invalid_argument", h |-> h, m |-> Mem]
         ELSE [ret |-> "ok", h |-> (e.id :> AffNode(e)) @@ h, m |-> [Mem EXCEPT !.own = (e.id :> <<0, 0>>) @@ @]]
    [] e.op = "ident" -> [ret |-> "ok", h |-> (e.id :> IdNode(e.in, e.out)) @@ h, m |-> [Mem EXCEPT !.own = (e.id :> <<0, 0>>) @@ @]]
    [] e.op \in {"tri", "comp"} ->
         IF ~(IF e.op = "tri" THEN TriOK(h, e.ch) ELSE CompOK(h, e.ch)) \/ (e.move /\ \E i \in 1..Len(e.ch) : ~IsSet(h, Mem, e.ch[i]))
         THEN [ret |-> "invalid_argument", h |-> h, m |-> Mem]
         ELSE LET hh == (e.id :> ContNode(h, e.op, e.ch)) @@ h
                  m1 == [Mem EXCEPT !.own = (e.id :> <<0, 0>>) @@ @]
              IN [ret |-> "ok", h |-> hh, m |-> IF e.move THEN MoveOp(hh, m1, e.id) ELSE m1]
    [] e.op = "sum" ->
         IF h[e.g].nout # 1 \/ h[e.g].nin # h[e.f].nout + 1 THEN [ret |-> "invalid_argument", h |-> h, m |-> Mem]
         ELSE [ret |-> "ok", h |-> (e.id :> SumNode(h, e.f, e.g)) @@ h, m |-> [Mem EXCEPT !.own = (e.id :> <<0, 0>>) @@ @]]
    [] e.op = "single" ->
         IF e.act > e.dim \/ e.act < 1 \/ h[e.c].nin # e.act THEN [ret |-> "invalid_argument", h |-> h, m |-> Mem]
         ELSE LET t == -(2 * e.id)  b == -(2 * e.id) - 1
                  h1 == (t :> IdNode(e.act - 1, e.act - 1)) @@ (b :> IdNode(e.dim, e.dim - e.act)) @@ h
                  ch == (IF e.act > 1 THEN <<t>> ELSE <<>>) \o <<e.c>> \o (IF e.act < e.dim THEN <<b>> ELSE <<>>)
                  hh == (e.id :> ContNode(h1, "tri", ch)) @@ h1
                  m1 == [Mem EXCEPT !.own = (t :> <<0, 0>>) @@ (b :> <<0, 0>>) @@ (e.id :> <<0, 0>>) @@ @]
              IN [ret |-> "ok", h |-> hh, m |-> SetOp(hh, m1, e.id, Zeros(hh[e.id].nc)).m]     \* like every factory: zero coefficients
    [] e.op = "ctri" ->
         LET n == e.out
             kid(i) == e.id * 10 + i
             h1 == [c \in {kid(i) : i \in 1..n} |-> MonoNode(e.opts, e.chd[c - e.id * 10].ms, e.in - e.out + (c - e.id * 10))] @@ h
             hh == (e.id :> ContNode(h1, "tri", [i \in 1..n |-> kid(i)])) @@ h1
             m1 == Fresh(Mem, Zeros(hh[e.id].nc))
         IN [ret |-> "ok", h |-> hh, m |-> Wrap(hh, m1, e.id, m1.nb, 0)]

MakeOps == {"mono", "dmono", "exp", "aff", "afun", "ident", "tri", "comp", "sum", "single", "ctri"}

----------------------------------------------------------------------------
(* Serialization: a saved object is a snapshot of its structure and values. *)
RECURSIVE Snap(_), SnapKids(_, _)
Snap(id) == [nd |-> h[id], set |-> IsSet(h, Mem, id), v |-> IF IsSet(h, Mem, id) THEN ValOf(h, Mem, id) ELSE <<>>,
             kids |-> IF h[id].k = "tri" THEN SnapKids(h[id].ch, 1) ELSE <<>>]
SnapKids(ch, i) == IF i > Len(ch) THEN <<>> ELSE <<Snap(ch[i])>> \o SnapKids(ch, i + 1)
(* The loaded object, with components id*10+1, ...; nothing is shared with the original. *)
RECURSIVE Inst(_, _, _), InstKids(_, _, _, _)
Inst(s, id, st) ==      \* st = [h, m]
  IF s.nd.k # "tri" THEN
    LET hh == (id :> s.nd) @@ st.h
        m0 == [st.m EXCEPT !.own = (id :> <<0, 0>>) @@ @]
    IN [h |-> hh, m |-> IF s.set /\ s.nd.nc > 0 THEN (LET m1 == Fresh(m0, s.v) IN Wrap(hh, m1, id, m1.nb, 0)) ELSE m0]
  ELSE
    LET s1 == InstKids(s.kids, id, 1, st)
        hh == (id :> [s.nd EXCEPT !.ch = [i \in 1..Len(s.kids) |-> id * 10 + i]]) @@ s1.h
        m0 == [s1.m EXCEPT !.own = (id :> <<0, 0>>) @@ @]
    IN [h |-> hh, m |-> IF s.set /\ s.nd.nc > 0 THEN MoveOp(hh, m0, id) ELSE m0]
InstKids(ks, id, i, st) == IF i > Len(ks) THEN st ELSE InstKids(ks, id, i + 1, Inst(ks[i], id * 10 + i, st))
RECURSIVE Savable(_)
Savable(id) == CASE h[id].k = "mono" -> TRUE
                 [] h[id].k = "tri" -> \A i \in 1..Len(h[id].ch) : Savable(h[id].ch[i])
                 [] OTHER -> FALSE
RECURSIVE LoadAll(_, _, _)
LoadAll(objs, i, st) == IF i > Len(objs) THEN st ELSE LoadAll(objs, i + 1, Inst(fs[E.file][objs[i].of], objs[i].id, st))

----------------------------------------------------------------------------
(* The state after the event. *)
Keep == [ret |-> "ok", h |-> h, m |-> Mem]
After(e) ==
  CASE e.op \in MakeOps -> Make(e)
    [] e.op = "buf" -> [Keep EXCEPT !.m = [Mem EXCEPT !.buf = (e.b :> e.v) @@ @]]
    [] e.op \in {"setc", "setce"} -> LET r == SetOp(h, Mem, e.id, e.v) IN [ret |-> r.ret, h |-> h, m |-> r.m]
    [] e.op = "setcb" -> LET r == SetOp(h, Mem, e.id, buf[e.b]) IN [ret |-> r.ret, h |-> h, m |-> r.m]
    [] e.op \in {"wrap", "wrape"} -> LET r == WrapOp(h, Mem, e.id, e.b) IN [ret |-> r.ret, h |-> h, m |-> r.m]
    [] e.op = "bpoke" -> [Keep EXCEPT !.m = Write(Mem, e.b, e.k, <<e.x>>)]
    [] e.op \in {"poke", "cmap"} -> IF ~IsSet(h, Mem, e.id) THEN [Keep EXCEPT !.ret = "runtime_error"]
                                    ELSE IF h[e.id].nc = 0 THEN Keep
                                    ELSE [Keep EXCEPT !.m = Write(Mem, own[e.id][1], own[e.id][2] + e.k, <<e.x>>)]
    [] e.op = "vpoke" -> IF e.i < 0 THEN Keep ELSE [Keep EXCEPT !.m = Write(Mem, vw[e.k].b, vw[e.k].o + e.i, <<e.x>>)]
    [] e.op = "keep" -> IF IsSet(h, Mem, e.id) THEN Keep ELSE [Keep EXCEPT !.ret = "runtime_error"]
    [] e.op = "coeffile" -> IF IsSet(h, Mem, e.id) THEN Keep ELSE [Keep EXCEPT !.ret = "unset"]
    [] e.op = "torch" ->      \* pytorch's tensor becomes the memory of the coefficients
         IF e.mode = "store" /\ ~IsSet(h, Mem, e.id) THEN [Keep EXCEPT !.ret = "runtime_error"]
         ELSE IF e.mode = "b" THEN LET r == WrapOp(h, Mem, e.id, e.b) IN [ret |-> r.ret, h |-> h, m |-> r.m]
         ELSE LET m1 == Fresh(Mem, IF e.mode = "store" THEN ValOf(h, Mem, e.id) ELSE e.c)  r == WrapOp(h, m1, e.id, m1.nb)
              IN [ret |-> r.ret, h |-> h, m |-> IF r.ret = "ok" THEN r.m ELSE Mem]
    [] e.op = "load" -> LET st == LoadAll(e.objs, 1, [h |-> h, m |-> Mem]) IN [ret |-> "ok", h |-> st.h, m |-> st.m]
    [] OTHER -> Keep

----------------------------------------------------------------------------
(* Computations. *)
RECURSIVE ReadyCoeffs(_)     \* the values of every object the computation reads
ReadyCoeffs(id) == id \in DOMAIN cf
EvOutcome(e) == IF IsSet(h, Mem, e.id) THEN "ok" ELSE "runtime_error"
(* The input gradient of the log determinant is specified for the continuous derivative;  *)
(* compositions may need it for the coefficient gradient, and may then refuse that as well. *)
KindOutcome(e, k) == IF ~IsSet(h, Mem, e.id) THEN {"runtime_error"}
                     ELSE IF k = "I" /\ ~ContAll(h, e.id) THEN {"invalid_argument"}
                     ELSE IF k = "L" /\ DiscComp(h, e.id) THEN {"ok", "invalid_argument"} ELSE {"ok"}
Ks(e) == {e.res[i].op : i \in 1..Len(e.res)}
N(e) == Len(e.x)
Want(e, k) ==
  CASE k = "e" -> Vec([p \in 1..N(e) |-> Eval(h, cf, e.id, e.x[p])])
    [] k = "g" -> Vec([p \in 1..N(e) |-> VJP(h, cf, e.id, e.x[p], e.s[p])])
    [] k = "c" -> Vec([p \in 1..N(e) |-> CVJP(h, cf, e.id, e.x[p], e.s[p])])
    [] k = "l" -> Vec([p \in 1..N(e) |-> <<LogDet(h, cf, e.id, e.x[p])>>])
    [] k = "L" -> Vec([p \in 1..N(e) |-> LDW(h, cf, e.id, e.x[p])])
    [] k = "I" -> Vec([p \in 1..N(e) |-> LDX(h, cf, e.id, e.x[p])])
KName(k) == CASE k \in {"i", "z"} -> "inverse" [] k = "e" -> "evaluate" [] k = "g" -> "gradient" [] k = "c" -> "coeff-gradient" [] k = "l" -> "log-determinant"
              [] k = "L" -> "log-determinant-coeff-gradient" [] k = "I" -> "log-determinant-input-gradient" [] OTHER -> k
KTol(e, k) == IF k = "e" THEN Tol(h, e.id) ELSE FMul(FI(10), Tol(h, e.id))
(* Judged up to t, and more where the map's slope is tiny, which matters to log determinants. *)
CloseUpTo(A, B, t, sl) == Len(A) = Len(B) /\ \A p \in 1..Len(A) : LET u == FMin(F1, FAdd(t, sl[p])) IN sl[p] = FInf \/ VClose(A[p], B[p], u, u)
Slacks(e, k) == Vec([p \in 1..N(e) |-> IF ~Tame(h, cf, e.id, e.x[p]) THEN FInf ELSE IF k \in {"l", "L", "I"} THEN Slack(h, cf, e.id, e.x[p]) ELSE F0])
AllClose(A, B, t) == Len(A) = Len(B) /\ \A p \in 1..Len(A) : VClose(A[p], B[p], t, t)
RunKind(e, k) ==
  IF "ok" \notin KindOutcome(e, k) THEN << <<"outcome:" \o KName(k), \A i \in 1..Len(e.res) : e.res[i].op = k => e.res[i].ret \in KindOutcome(e, k)>> >>
  ELSE LET W == Want(e, k)  t == KTol(e, k)  sl == Slacks(e, k) IN
    << <<"outcome:" \o KName(k), \A i \in 1..Len(e.res) : e.res[i].op = k => e.res[i].ret \in KindOutcome(e, k)>>,
       <<KName(k), \A i \in 1..Len(e.res) : (e.res[i].op = k /\ e.res[i].ret = "ok") => CloseUpTo(e.res[i].v, W, t, sl)>> >>
RECURSIVE RunAll(_, _)
RunAll(e, S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : TRUE IN RunKind(e, k) \o RunAll(e, S \ {k})
RunChecks(e) == RunAll(e, Ks(e)) \o
  << <<"padding", \A i \in 1..Len(e.res) : e.res[i].pad>>, <<"no-side-effects", e.pure>> >>

(* A component with an adaptive rule is the value at 0 plus that rule's own result, with   *)
(* the subdivision its tolerances and limits lead to.                                      *)
ByRule(nd, w, x) ==
  LET c == Coll(nd, w, Pre(nd, x, 0)) IN
  FAdd(FDot(c, XVal(nd.b, K(nd), F0)), Quad(nd.q, << [t |-> "mono", p |-> <<nd, c, x[nd.dim]>>] >>, F0, F1)[1])
RuleChecks(e) ==
  IF ~IsSet(h, Mem, e.id) THEN <<>>
  ELSE LET W == Vec([p \in 1..N(e) |-> <<ByRule(h[e.id], cf[e.id], e.x[p])>>]) IN
       << <<"quadrature-options", \A i \in 1..Len(e.res) : (e.res[i].op = "e" /\ e.res[i].ret = "ok") => AllClose(e.res[i].v, W, FDec("1e-11"))>> >>

(* Along a line in the last direction the component rises at least with the minimum slope. *)
Increasing(nd, x, y) ==
  \A p \in 1..Len(x)-1 :
    LET gap == FSub(x[p+1][nd.dim], x[p][nd.dim])
        slack == FMul(FAdd(FDec("1e-10"), nd.q.tol), FAdd(F1, FAbs(y[p][1])))
    IN FLe(FSub(FMul(nd.nug, gap), slack), FSub(y[p+1][1], y[p][1]))

InvChecks(e) ==
  IF ~IsSet(h, Mem, e.id) THEN << <<"outcome:inverse", \A i \in 1..Len(e.res) : e.res[i].ret = "runtime_error">>, <<"no-side-effects", e.pure>> >>
  ELSE << <<"outcome:inverse", \A i \in 1..Len(e.res) : e.res[i].ret = "ok">>,
     <<"inverse", \A i \in 1..Len(e.res) : e.res[i].ret = "ok" =>
          /\ Len(e.res[i].v) = Len(e.r)
          /\ \A p \in 1..Len(e.r) : InvOK(h, cf, e.id, e.x[p], e.r[p], e.res[i].v[p])>>,
     <<"padding", \A i \in 1..Len(e.res) : e.res[i].pad>>, <<"no-side-effects", e.pure>> >>
MirrorChecks(e) == InvChecks(e) \o
  (IF e.eret # "ok" THEN <<>> ELSE << <<"evaluate", Len(e.r) = Len(e.xt) /\ \A p \in 1..Len(e.xt) : Tame(h, cf, e.id, e.xt[p]) => VClose(e.r[p], Eval(h, cf, e.id, e.xt[p]), Tol(h, e.id), Tol(h, e.id))>> >>)

(* The same points in other batches, orders, layouts and once more. *)
BT == FDec("1e-12")
BatchChecks(e) ==
  [i \in 1..Len(e.res) |-> <<"batch:" \o KName(e.res[i].op),
     IF e.res[i].ret # "ok" THEN e.res[i].ret \in KindOutcome(e, e.res[i].op)
     ELSE /\ "ok" \in KindOutcome(e, e.res[i].op)
          /\ \A w \in 1..Len(e.res[i].ways) : AllClose(e.res[i].ways[w].v, e.res[i].ways[1].v, BT)>>]
  \o << <<"no-side-effects", e.pure>> >>

----------------------------------------------------------------------------
Views(e) == IF e.op = "keep" /\ e.ret = "ok" THEN (e.k :> [b |-> own[e.id][1], o |-> own[e.id][2], n |-> h[e.id].nc]) @@ vw ELSE vw
Dropped(e) == IF e.op = "del" THEN gone \cup {e.id} ELSE gone
(* Coefficients as observed; those of objects held only by other objects follow from the memory. *)
Seen(e, a) == [i \in {e.cv[j].id : j \in 1..Len(e.cv)} |-> LET j == CHOOSE j \in 1..Len(e.cv) : e.cv[j].id = i IN e.cv[j].v]
              @@ [i \in Dropped(e) |-> IF IsSet(a.h, a.m, i) THEN ValOf(a.h, a.m, i) ELSE <<>>]

(* A pytorch module: values, log determinants and what automatic differentiation makes of them.      *)
(* s weighs the outputs and w the log determinants in the differentiated scalar.  What was differentiated is the map *)
(* at the coefficients of that evaluation, whatever the map's coefficients were set to since (e.mid).                *)
TorchChecks(e) ==
  LET C == Seen(e, After(e))
      n == Len(e.x)
      t == FMax(IF e.mode = "f32" THEN FDec("2e-4") ELSE F0, FMul(FI(10), Tol(h, e.id)))
      sl == Vec([p \in 1..n |-> IF e.ld THEN Slack(h, C, e.id, e.x[p]) ELSE F0])
      gx(p) == LET a == VJP(h, C, e.id, e.x[p], e.s[p]) IN IF e.ld THEN VAdd(a, VScale(e.w[p], LDX(h, C, e.id, e.x[p]))) ELSE a
      gc(p) == LET a == CVJP(h, C, e.id, e.x[p], e.s[p]) IN IF e.ld THEN VAdd(a, VScale(e.w[p], LDW(h, C, e.id, e.x[p]))) ELSE a
      tot == FMin(F1, FAdd(FMul(FI(10), t), FSum(sl)))
  IN << <<"torch-evaluate", CloseUpTo(e.y, Vec([p \in 1..n |-> Eval(h, C, e.id, e.x[p])]), t, Vec([p \in 1..n |-> F0]))>>,
        <<"torch-log-determinant", e.ld => CloseUpTo(e.l, Vec([p \in 1..n |-> <<LogDet(h, C, e.id, e.x[p])>>]), t, sl)>>,
        <<"torch-gradient", e.bw => CloseUpTo(e.gx, Vec([p \in 1..n |-> gx(p)]), t, sl)>>,
        <<"torch-coeff-gradient", (e.gc # <<>> /\ h[e.id].nc > 0) => VClose(e.gc[1], VSumSeq(Vec([p \in 1..n |-> gc(p)]), h[e.id].nc), tot, tot)>>,
        <<"torch-coeff-gradient", (e.bw /\ e.mode # "b" /\ ~e.frz /\ h[e.id].nc > 0) => e.gc # <<>> >>,
        <<"torch-inverse", e.inv => \A p \in 1..n : InvOK(h, C, e.id, e.x[p], e.y[p], e.iv[p])>> >>

----------------------------------------------------------------------------
(* What is observed after every event that may touch objects or coefficients. *)
ViewVal(m, v) == IF v.n = 0 THEN <<>> ELSE SubSeq(m.buf[v.b], v.o + 1, v.o + v.n)
CoeffChecks(e, a) ==
  << <<"kept-arrays", Has(e, "views") => LET V == Views(e) IN
        /\ {e.views[i].k : i \in 1..Len(e.views)} = DOMAIN V
        /\ \A i \in 1..Len(e.views) : e.views[i].v = ViewVal(a.m, V[e.views[i].k])>>,
      <<"coefficients", \A i \in 1..Len(e.cv) : LET c == e.cv[i] IN
        c.id \in DOMAIN a.h /\ c.set = IsSet(a.h, a.m, c.id) /\ (c.set => c.v = ValOf(a.h, a.m, c.id))>>,
     <<"user-buffers", \A i \in 1..Len(e.bufs) : e.bufs[i].v = a.m.buf[e.bufs[i].b]>>,
     <<"objects", {e.cv[i].id : i \in 1..Len(e.cv)} = {id \in DOMAIN a.h : id > 0} \ Dropped(e)>> >>
DimsOf(nd) == <<nd.nin, nd.nout, nd.nc>>
Checks(e) ==
  CASE e.op = "run" -> RunChecks(e)
    [] e.op = "runx" -> SelectSeq(RunChecks(e), LAMBDA c : c[1] # "evaluate") \o RuleChecks(e)
    [] e.op = "line" -> RunChecks(e) \o << <<"monotone", \A i \in 1..Len(e.res) : e.res[i].ret = "ok" => Increasing(h[e.id], e.x, e.res[i].v)>> >>
    [] e.op = "inv" -> InvChecks(e)
    [] e.op = "mirror" -> MirrorChecks(e)
    [] e.op = "batch" -> BatchChecks(e)
    [] e.op = "save" -> << <<"save", (e.ret = "ok") = Savable(e.id)>> >> \o CoeffChecks(e, Keep)
    [] e.op = "load" ->
         LET a == After(e) IN
         << <<"load", \A i \in 1..Len(e.objs) : e.objs[i].ret = "ok" /\ e.objs[i].dims = DimsOf(a.h[e.objs[i].id])>>,
            <<"stream-position", e.rest = 0>> >>
         \o (IF \A i \in 1..Len(e.objs) : e.objs[i].ret = "ok" THEN CoeffChecks(e, a) ELSE <<>>)
    [] e.op \in MakeOps ->
         LET a == After(e) IN
         << <<"construct", e.ret = a.ret>>,
            <<"dimensions", (e.ret = "ok" /\ a.ret = "ok") => e.dims = DimsOf(a.h[e.id])>>,
            <<"factory-structure", (e.op = "ctri" /\ e.ret = "ok") =>
                 /\ Len(e.chd) = e.out
                 /\ \A i \in 1..e.out : /\ e.chd[i].dims = DimsOf(a.h[e.ch[i]])
                                        /\ {e.chd[i].ms[j] : j \in 1..Len(e.chd[i].ms)} = Totals(e.in - e.out + i, e.order)>> >>
         \o (IF e.ret = a.ret THEN CoeffChecks(e, a) ELSE <<>>)
    [] e.op = "buf" -> CoeffChecks(e, After(e))
    [] e.op = "bpoke" -> CoeffChecks(e, After(e))
    [] e.op \in {"setc", "setce", "setcb", "wrap", "wrape", "poke", "cmap"} ->
         LET a == After(e) IN << <<"outcome:" \o e.op, e.ret = a.ret>> >> \o CoeffChecks(e, a)
    [] e.op \in {"vpoke", "del"} -> CoeffChecks(e, After(e))
    [] e.op = "keep" -> << <<"outcome:keep", e.ret = After(e).ret>> >> \o CoeffChecks(e, After(e))
    [] e.op = "coeffile" ->
         LET a == After(e) IN
         << <<"outcome:coefficient-file", e.ret = a.ret>>,
            <<"coefficient-file", e.ret = "ok" => e.got = <<h[e.id].nin, h[e.id].nout>> /\ e.v = ValOf(h, Mem, e.id)>> >> \o CoeffChecks(e, a)
    [] e.op = "torch" ->
         LET a == After(e) IN
         << <<"outcome:torch", e.ret = a.ret>> >> \o CoeffChecks(e, a) \o (IF e.ret = "ok" /\ a.ret = "ok" THEN TorchChecks(e) ELSE <<>>)
    [] OTHER -> << <<"known-event", FALSE>> >>

Observed(e) == [i \in {e.cv[j].id : j \in 1..Len(e.cv)} |-> LET j == CHOOSE j \in 1..Len(e.cv) : e.cv[j].id = i IN e.cv[j].v]

Init == /\ l = 1 /\ h = <<>> /\ own = <<>> /\ buf = <<>> /\ cf = <<>> /\ nb = 0 /\ fs = <<>> /\ vw = <<>> /\ gone = {}
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF E.op = "reset" THEN h' = <<>> /\ own' = <<>> /\ buf' = <<>> /\ cf' = <<>> /\ nb' = 0 /\ fs' = <<>> /\ vw' = <<>> /\ gone' = {}
     ELSE IF E.op = "Crash" THEN Report(l, {"crash"}) /\ UNCHANGED <<h, own, buf, cf, nb, fs, vw, gone>>
     ELSE LET a == IF Has(E, "ret") /\ E.op \in MakeOps /\ E.ret # "ok" THEN Keep ELSE After(E) IN
       /\ Report(l, Failing(Checks(E)))
       /\ h' = a.h /\ own' = a.m.own /\ buf' = a.m.buf /\ nb' = a.m.nb
       /\ cf' = IF Has(E, "cv") THEN Seen(E, a) ELSE cf
       /\ vw' = Views(E) /\ gone' = Dropped(E)
       /\ fs' = IF E.op = "save" /\ E.ret = "ok" THEN (E.file :> ((IF E.file \in DOMAIN fs THEN fs[E.file] ELSE <<>>) \o <<Snap(E.id)>>)) @@ fs ELSE fs
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
