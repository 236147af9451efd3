----------------------------- MODULE TraceParts -----------------------------
(* Containers over user-defined parts (C27). *)
EXTENDS Parts, Reversal, TraceKit
VARIABLES l, h, cf
E == Trace[l]

Node(e) ==
  CASE e.op = "part" -> [k |-> "part", l |-> e.l, nin |-> e.nin, nout |-> e.nout, nc |-> e.nc]
    [] e.op = "tri" -> LET n == h[e.ch[Len(e.ch)]] IN
         [k |-> "tri", ch |-> e.ch, nin |-> n.nin, nout |-> ISum([i \in 1..Len(e.ch) |-> h[e.ch[i]].nout]), nc |-> ISum([i \in 1..Len(e.ch) |-> h[e.ch[i]].nc])]
    [] e.op = "comp" -> LET n == h[e.ch[1]] IN
         [k |-> "comp", ch |-> e.ch, nin |-> n.nin, nout |-> n.nout, nc |-> ISum([i \in 1..Len(e.ch) |-> h[e.ch[i]].nc]),
          s |-> IF e.max <= 0 THEN Len(e.ch) ELSE e.max]
    [] e.op = "sum" -> [k |-> "sum", f |-> e.f, g |-> e.g, nin |-> h[e.f].nin + 1, nout |-> 1, nc |-> h[e.g].nc]
Defs == {"part", "tri", "comp", "sum"}
H2(e) == CASE e.op \in Defs -> (e.id :> Node(e)) @@ h [] e.op = "reset" -> <<>> [] OTHER -> h
C2(e) == CASE e.op = "part" -> (e.id :> e.w) @@ cf [] e.op = "coef" -> SetAll(h, cf, e.id, e.w) [] e.op = "reset" -> <<>> [] OTHER -> cf

Q(k, id, x, s) == CASE k = "e" -> TE(h, cf, id, x) [] k = "g" -> TV(h, cf, id, x, s) [] k = "c" -> TC(h, cf, id, x, s)
                    [] k = "l" -> << TL(h, cf, id, x) >> [] k = "L" -> TW(h, cf, id, x) [] k = "I" -> TX(h, cf, id, x)
All(n, F(_)) == [i \in 1..n |-> F(i)]
Right(e) == CASE e.op = "q" -> e.v = All(Len(e.x), LAMBDA i : Q(e.k, e.id, e.x[i], e.s[i]))
              [] e.op = "inv" -> e.v = All(Len(e.r), LAMBDA i : TI(h, cf, e.id, e.x[i], e.r[i]))
              [] e.op = "pull" -> e.v = All(Len(e.x), LAMBDA i : CASE e.k = "d" -> << PullD(h, cf, e.id, e.x[i]) >> [] e.k = "x" -> PullX(h, cf, e.id, e.x[i]) [] e.k = "w" -> PullW(h, cf, e.id, e.x[i]))
              [] e.op = "push" -> e.v = All(Len(e.x), LAMBDA i : << PushD(h, cf, e.id, e.x[i]) >>)
              [] e.op = "kl" -> /\ e.v = 0 - ISum([i \in 1..Len(e.x) |-> PullD(h, cf, e.id, e.x[i])]) /\ e.v2 = e.v
                                /\ e.g = SumV([i \in 1..Len(e.x) |-> [k \in 1..h[e.id].nc |-> 0 - PullW(h, cf, e.id, e.x[i])[k]]], h[e.id].nc)
              [] OTHER -> TRUE
(* The backward passes of a composition of parts, one point at a time: what its layers were asked. *)
Backward(e) == e.op = "q" /\ e.k \in {"g", "c", "L", "I"} /\ h[e.id].k = "comp" /\ Len(e.x) = 1 /\ e.out = "ok"
               /\ \A i \in 1..Len(h[e.id].ch) : h[h[e.id].ch[i]].k = "part"
Place(ch, id) == (CHOOSE i \in 1..Len(ch) : ch[i] = id) - 1
Sched(e) == LET ch == h[e.id].ch IN [t \in 1..Len(e.log) |-> [ev |-> e.log[t][2] = "e", at |-> Place(ch, e.log[t][1])]]
Checks(e) ==
  CASE e.op = "Crash" -> << <<"crash", FALSE>> >>
    [] e.op \in {"reset"} -> <<>>
    [] OTHER ->
       << <<"parts-outcome", e.out = "ok">>,
          <<"parts-shape", e.op \in Defs => e.dims = << H2(e)[e.id].nin, H2(e)[e.id].nout, H2(e)[e.id].nc >> >>,
          <<"parts-coefficients", \A i \in 1..Len(e.ws) : LET p == e.ws[i] IN C2(e)[p.id] = p.w>>,
          <<"parts-" \o e.op, e.out = "ok" => Right(e)>>,
          <<"parts-available", Backward(e) => Available(Sched(e))>>,
          <<"parts-memory", Backward(e) => WithinBudget(Sched(e), h[e.id].s)>>,
          <<"parts-recompute", Backward(e) => LET n == Len(h[e.id].ch)  s == h[e.id].s IN
               Thrifty(Evals(Sched(e)), n, s)>> >>

Init == l = 1 /\ h = <<>> /\ cf = <<>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Failing(Checks(E)))
        /\ h' = (IF E.op = "Crash" THEN <<>> ELSE H2(E)) /\ cf' = (IF E.op = "Crash" THEN <<>> ELSE C2(E))
Spec == Init /\ [][Next]_<<l, h, cf>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
