----------------------------- MODULE TraceMISet -----------------------------
(* Conformance of MultiIndex, MultiIndexSet, FixedMultiIndexSet and the     *)
(* limiters to MISet.  ASPECT selects the property being decided: the       *)
(* conjuncts are grouped by property, all of them over the same traces.     *)
EXTENDS MISet, TraceKit

CONSTANT ASPECT
VARIABLES l,      \* next trace line
          sets,   \* slot -> abstract multi-index set
          fix,    \* slot -> sequence of multi-indices of a fixed set
          regs    \* the multi-index registers, dense

vars == <<l, sets, fix, regs>>
E == Trace[l]

----------------------------------------------------------------------------
(* The state before and after the current event. *)
Pre == IF Has(E, "pre") THEN 0 :> MkSet(E.plen, E.plim, E.pre) ELSE sets
AllSlots(e) == {e.all[i].s : i \in 1..Len(e.all)}
ActOf(e, s) == (CHOOSE i \in 1..Len(e.all) : e.all[i].s = s) 
ObsAct(e, s) == e.all[ActOf(e, s)].act

NewLen(e) == CASE e.op \in {"new", "total", "tensor", "matrix"} -> e.len
               [] e.op = "copy" -> Pre[e.b].len
               [] e.op \in {"plus", "plusm"} -> Pre[e.b].len
               [] OTHER -> Pre[e.s].len
NewLim(e) == CASE e.op \in {"new", "total", "tensor"} -> e.lim
               [] e.op = "matrix" -> <<"None">>
               [] e.op \in {"copy", "plus", "plusm"} -> Pre[e.b].lim
               [] e.op = "assign" -> IF e.ret = "ok" THEN Pre[e.b].lim ELSE Pre[e.s].lim
               [] e.op = "setlim" -> IF e.ret = "ok" THEN e.lim ELSE Pre[e.s].lim
               [] OTHER -> Pre[e.s].lim
SetOps == {"new", "total", "tensor", "matrix", "copy", "assign", "plus", "plusm", "add", "iadd", "union",
           "iunion", "activate", "expand", "expandall", "fexpand", "factivate", "setlim"}
Post(e) == IF e.op \in SetOps
           THEN (e.s :> MkSet(NewLen(e), NewLim(e), ObsAct(e, e.s))) @@ Pre
           ELSE Pre

Sorted(S) == S    \* sets are compared as sets
NewIdx(s, t) == {i : i \in Len(s.act)..(Len(t.act) - 1)}

----------------------------------------------------------------------------
(* Bookkeeping (C01). *)
Effect(e, s, t) ==     \* s: the slot before (where it existed), t: after
  CASE e.op = "new" -> t.act = <<>>
    [] e.op \in {"total", "tensor"} -> TRUE
    [] e.op = "matrix" -> Grows(MkSet(e.len, <<"None">>, <<>>), t, Rng(e.rows))
    [] e.op = "copy" -> t.act = Pre[e.b].act
    [] e.op = "assign" -> IF Pre[e.b].len = s.len THEN e.ret = "ok" /\ t.act = Pre[e.b].act
                          ELSE e.ret = "runtime_error" /\ t.act = s.act
    [] e.op = "plus" -> Grows(Pre[e.b], t, UnionNew(Pre[e.b], Pre[e.c]))
    [] e.op = "plusm" -> Grows(Pre[e.b], t, AddNew(Pre[e.b], e.m))
    [] e.op = "add" -> /\ Grows(s, t, AddNew(s, e.m))
                       /\ e.ret = IF Acc(s, e.m) THEN IndexOf(t, e.m) ELSE -1
    [] e.op = "iadd" -> Grows(s, t, AddNew(s, e.m))
    [] e.op = "union" -> LET N == UnionNew(s, Pre[e.b]) IN Grows(s, t, N) /\ e.ret = Cardinality(N)
    [] e.op = "iunion" -> Grows(s, t, UnionNew(s, Pre[e.b]))
    [] e.op = "setlim" -> t.act = s.act /\ e.ret = IF LimiterOK(s, e.lim) THEN "ok" ELSE "invalid_argument"
    [] OTHER -> \A i \in 1..Len(s.act) : i <= Len(t.act) /\ t.act[i] = s.act[i]

Others(e, written) == \A k \in AllSlots(e) : k # written => k \in DOMAIN Pre /\ ObsAct(e, k) = Pre[k].act

Book(e) ==
  IF e.op \in SetOps THEN
    LET t == Post(e)[e.s]
        s == IF e.s \in DOMAIN Pre THEN Pre[e.s] ELSE t
        o == e.obs
    IN << <<"effect:" \o e.op, Effect(e, s, t)>>,
          <<"wellformed", WellFormed(t)>>,
          <<"length", o.len = t.len>>,
          <<"maxorders", o.maxo = MaxOrders(t)>>,
          <<"index-to-multi", o.act = t.act /\ o.at = t.act /\ o.br = t.act>>,
          <<"multi-to-index", \A i \in 1..Len(o.probes) : o.idx[i] = IndexOf(t, o.probes[i])>>,
          <<"is-active", Has(o, "isact") => Rng(o.isact) = Rng(o.probes) \cap Act(t)>>,
          <<"other-sets-untouched", Others(e, e.s)>> >>
  ELSE IF e.op = "filter" THEN
    LET s == Pre[e.s] IN
    << <<"filter", /\ e.n = Len(s.act)
                   /\ Rng(e.ret) = {i \in 0..(Len(s.act) - 1) : \E d \in 1..s.len : s.act[i + 1][d] >= e.m[d]}>>,
       <<"other-sets-untouched", Others(e, -1)>> >>
  ELSE IF e.op = "Crash" THEN << <<"crash", FALSE>> >>
  ELSE IF Has(e, "all") THEN << <<"other-sets-untouched", Others(e, -1)>> >>
  ELSE <<>>

----------------------------------------------------------------------------
(* Adaptivity: the derived collections and the expansion operations (C02).  *)
ReturnsNew(e, s, t, N) == Grows(s, t, N) /\ NoDup(e.ret) /\ Rng(e.ret) = NewIdx(s, t)
Expansion(e, s, t) ==
  CASE e.op = "expand" -> IF e.i >= Len(s.act) THEN e.out = "out_of_range" /\ t.act = s.act
                          ELSE e.out = "ok" /\ ReturnsNew(e, s, t, ExpandNew(s, e.i))
    [] e.op = "expandall" -> ReturnsNew(e, s, t, ExpandAllNew(s))
    [] e.op = "fexpand" -> IF e.i < 0 THEN t.act = s.act ELSE ReturnsNew(e, s, t, FExpandNew(s, e.i))
    [] e.op = "factivate" -> IF e.acc THEN Acc(s, e.m) /\ ReturnsNew(e, s, t, FActivateNew(s, e.m))
                             ELSE ~Acc(s, e.m) /\ t.act = s.act
    [] e.op = "activate" -> /\ (e.adm => Acc(s, e.m) /\ (e.m \in Act(s) \/ FullyBacked(s, e.m)))
                            /\ (Admissible(s, e.m) => e.adm)
                            /\ IF e.adm THEN Grows(s, t, AddNew(s, e.m)) ELSE t.act = s.act
    [] OTHER -> TRUE
BackIdx(t, m, b) ==     \* inactive backward neighbours may appear as -1
  /\ {x \in Rng(b) : x # -1} = {IndexOf(t, n) : n \in Bwd(m) \cap Act(t)}
  /\ Cardinality({i \in 1..Len(b) : b[i] # -1}) = Cardinality(Bwd(m) \cap Act(t))
  /\ Cardinality({i \in 1..Len(b) : b[i] = -1}) \in
       0..Cardinality({n \in Bwd(m) : n \notin Act(t)})
Queries(t, o) ==
    << <<"margin", NoDup(o.margin) /\ Rng(o.margin) = Margin(t)>>,
       <<"reduced-margin", NoDup(o.rmargin) /\ RMLow(t) \subseteq Rng(o.rmargin) /\ Rng(o.rmargin) \subseteq RMHigh(t)>>,
       <<"frontier", NoDup(o.front) /\ Rng(o.front) = Frontier(t)>>,
       <<"strict-frontier", NoDup(o.strict) /\ Rng(o.strict) = StrictFrontier(t)>>,
       <<"expandable", Rng(o.expd) = Frontier(t)>>,
       <<"num-active-forward", o.naf = [i \in 1..Len(t.act) |-> NumActiveFwd(t, t.act[i])]>>,
       <<"num-forward", o.nf = [i \in 1..Len(t.act) |-> NumFwd(t, t.act[i])]>>,
       <<"backward-neighbors", Has(o, "bwd") =>
                               /\ Len(o.bwd) = Len(t.act)
                               /\ \A i \in 1..Len(t.act) : BackIdx(t, t.act[i], o.bwd[i])>>,
       <<"limiter-kept", Has(o, "accepts") => Rng(o.accepts) = {p \in Rng(o.probes) : Accepts(t.lim, p)}>>,
       <<"admissible", Has(o, "isadm") =>
                       LET adm == {p \in Rng(o.probes) : Admissible(t, p)} IN
                       /\ adm \subseteq Rng(o.isadm)
                       /\ Rng(o.isadm) \subseteq adm \cup {Zero(t.len)}
                       /\ \A z \in Rng(o.isadm) : Acc(t, z)>> >>
Cell(c, r, x) == ToString(c) \o "," \o ToString(r) \o "," \o x
Vis(e, t) == LET mo == MaxOrders(t)
                 G == {m \in Box(2, MaxOf({mo[1], mo[2]}) + 1) : m[1] <= mo[1] + 1 /\ m[2] <= mo[2] + 1}
                 at(x) == {m \in G : Cell(m[1], m[2], x) \in Rng(e.cells)}
             IN /\ at("a") = Act(t)
                /\ RMLow(t) \cap G \subseteq at("r") /\ at("r") \subseteq RMHigh(t)
                /\ (Margin(t) \ RMHigh(t)) \cap G \subseteq at("m")
                /\ at("m") \cap (Act(t) \cup RMLow(t)) = {}
Adapt(e) ==
  IF e.op \in SetOps THEN
    LET t == Post(e)[e.s]
        s == IF e.s \in DOMAIN Pre THEN Pre[e.s] ELSE t
    IN << <<"expansion:" \o e.op, Expansion(e, s, t)>> >> \o Queries(t, e.obs)
  ELSE IF e.op = "vis" THEN << <<"visualize", Vis(e, Pre[e.s])>> >>
  ELSE IF e.op = "Crash" THEN << <<"crash", FALSE>> >> ELSE <<>>

----------------------------------------------------------------------------
(* Multi-index values (C03). *)
RegOps == {"mvec", "mcopy", "mset", "mget", "mcmp", "mnb"}
SpaceJoin(v) == LET RECURSIVE J(_)
                    J(k) == IF k = 0 THEN "" ELSE IF k = 1 THEN ToString(v[1]) ELSE J(k - 1) \o " " \o ToString(v[k])
                IN J(Len(v))
RegsPost(e) ==
  CASE e.op = "mvec" -> [regs EXCEPT ![e.r] = e.v]
    [] e.op = "mcopy" -> [regs EXCEPT ![e.r] = regs[e.b]]
    [] e.op = "mset" -> IF e.i < Len(regs[e.r]) THEN [regs EXCEPT ![e.r][e.i + 1] = e.v] ELSE regs
    [] OTHER -> regs
RegOK(o, v) == /\ o.len = Len(v) /\ o.get = v /\ o.vec = v
               /\ o.sum = SumSeq(v) /\ o.max = MaxSeq(v) /\ o.nnz = NumNz(v)
               /\ o.str = SpaceJoin(v) /\ o.stream = SpaceJoin(v)
Value(e) ==
  IF e.op \in RegOps THEN
    LET p == RegsPost(e) IN
    << <<"registers:" \o e.op, \A r \in 0..3 : RegOK(e.regs[r + 1], p[r])>>,
       <<"result:" \o e.op,
         CASE e.op = "mset" -> IF e.i < Len(regs[e.r])
                               THEN e.out = "ok" /\ (e.ret = (regs[e.r][e.i + 1] # 0))
                               ELSE e.out = "out_of_range"
           [] e.op = "mget" -> IF e.i < Len(regs[e.r]) THEN e.out = "ok" /\ e.ret = regs[e.r][e.i + 1]
                               ELSE e.out = "out_of_range"
           [] e.op = "mcmp" ->
                LET x == regs[e.a]  y == regs[e.b] IN
                /\ e.lt = MLt(x, y) /\ e.gt = MLt(y, x) /\ e.eq = (x = y) /\ e.ne = (x # y)
                /\ e.le = ~MLt(y, x) /\ e.ge = ~MLt(x, y)
                /\ ~Has(e, "about") \/ IF Len(x) > Len(y) THEN e.about = "invalid_argument"
                   ELSE e.about = "ok" /\ (e.ab = \E i \in 1..Len(x) : x[i] >= y[i])
                /\ (Has(e, "fwd") => e.fwd = IsFwd(x, y) /\ e.bwd = IsFwd(y, x))
           [] e.op = "mnb" -> /\ NoDup(e.fw) /\ Rng(e.fw) = Fwd(regs[e.a])
                              /\ NoDup(e.bw) /\ Rng(e.bw) = Bwd(regs[e.a])
           [] OTHER -> TRUE>> >>
  ELSE IF e.op = "Crash" THEN << <<"crash", FALSE>> >> ELSE <<>>

----------------------------------------------------------------------------
(* Factories, limiters and fixed snapshots (C04). *)
FixPost(e) == CASE e.op = "fix" -> (e.f :> Pre[e.s].act) @@ fix
                [] e.op = "ftotal" -> (e.f :> e.fobs.multis) @@ fix
                [] e.op = "fcopy" -> (e.f :> fix[e.g]) @@ fix
                [] OTHER -> fix
FixOK(o, ms) ==
    << <<"fixed-multis", o.multis = ms>>,
       <<"fixed-arrays", Has(o, "arr") => o.arr = ms>>,
       <<"fixed-self-index", \A i \in 1..Len(ms) : o.self[i] = (CHOOSE j \in 1..Len(ms) : ms[j] = ms[i]) - 1>>,
       <<"fixed-index", \A i \in 1..Len(o.probes) :
              o.idx[i] = IF \E j \in 1..Len(ms) : ms[j] = o.probes[i]
                         THEN (CHOOSE j \in 1..Len(ms) : ms[j] = o.probes[i]) - 1 ELSE -1>>,
       <<"fixed-maxdegrees", o.maxd = [d \in 1..o.len |-> IF ms = <<>> THEN 0 ELSE MaxOf({m[d] : m \in Rng(ms)})]>> >>
Fact(e) ==
  IF e.op = "total" THEN LET t == Post(e)[e.s] IN
    << <<"total-order", NoDup(t.act) /\ Rng(t.act) = TotalOrderSet(e.len, e.p, e.lim) /\ LexSorted(t.act)>> >>
  ELSE IF e.op = "tensor" THEN LET t == Post(e)[e.s] IN
    << <<"tensor-product", NoDup(t.act) /\ Rng(t.act) = TensorSet(e.len, e.p, e.lim) /\ LexSorted(t.act)>> >>
  ELSE IF e.op = "matrix" THEN LET t == Post(e)[e.s]  s == MkSet(e.len, <<"None">>, <<>>) IN
    << <<"matrix-rows", Grows(s, t, Rng(e.rows)) /\ (NoDup(e.rows) => t.act = e.rows)>> >>
  ELSE IF e.op = "limcheck" THEN
    << <<"limiter", Rng(e.yes) = {m \in Rng(e.probes) : Accepts(e.lim, m)}>> >>
  ELSE IF e.op = "ftotal" THEN
    << <<"fixed-total-order", NoDup(e.fobs.multis) /\ LexSorted(e.fobs.multis)
           /\ Rng(e.fobs.multis) = TotalOrderSet(e.d, e.p, <<"None">>)>> >> \o FixOK(e.fobs, e.fobs.multis)
  ELSE IF e.op \in {"fix", "fcopy", "fobs"} THEN FixOK(e.fobs, FixPost(e)[e.f])
  ELSE IF e.op = "Crash" THEN << <<"crash", FALSE>> >> ELSE <<>>

----------------------------------------------------------------------------
Checks(e) == CASE ASPECT = "book" -> Book(e)
               [] ASPECT = "adapt" -> Adapt(e)
               [] ASPECT = "value" -> Value(e)
               [] ASPECT = "fact" -> Fact(e)
               [] ASPECT = "all" -> Book(e) \o Adapt(e) \o Value(e) \o Fact(e)

Init == l = 1 /\ sets = <<>> /\ fix = <<>> /\ regs = [r \in 0..3 |-> <<>>]
Reset == E.op = "reset" /\ sets' = <<>> /\ fix' = <<>> /\ regs' = [r \in 0..3 |-> <<>>] /\ l' = l + 1
Step == /\ E.op # "reset"
        /\ Report(l, Failing(Checks(E)))
        /\ sets' = (IF Has(E, "pre") THEN sets ELSE IF E.op \in SetOps THEN Post(E) ELSE sets)
        /\ fix' = FixPost(E)
        /\ regs' = (IF E.op \in RegOps THEN [r \in 0..3 |-> E.regs[r + 1].vec] ELSE regs)
        /\ l' = l + 1
Next == l <= Len(Trace) /\ (Reset \/ Step)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
