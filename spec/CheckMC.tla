------------------------------ MODULE CheckMC ------------------------------
(* The checkpoint schedule of compositions (src/ComposedMap.cpp, adapted from revolve), step by step: a stack of   *)
(* checkpoints and two work arrays.  Every depth to N and every number of checkpoints.                            *)
EXTENDS Reversal, TLC
CONSTANT N
VARIABLES n, s, stack, w1, w2, i, req, next, pc, sch
vars == <<n, s, stack, w1, w2, i, req, next, pc, sch>>
None == 0 - 1
Bad == 0 - 100
Top == stack[Len(stack)]
Ev(k, v) == IF v = k THEN k + 1 ELSE Bad       \* evaluating layer k on x_v

RECURSIVE Range(_, _, _, _)
Range(reps, range, avail, len) == IF range >= len THEN <<reps, range>> ELSE Range(reps + 1, (range * (reps + 1 + avail)) \div (reps + 1), avail, len)
NextCheck(layer, st) ==
  LET cur == st[Len(st)].at  avail == s - Len(st) IN
  IF avail = 0 THEN None
  ELSE LET R == Range(0, 1, avail, layer + 1 - cur)  reps == R[1]  range == R[2]
           b1 == (range * reps) \div (avail + reps)
           b2 == IF avail > 1 THEN (b1 * avail) \div (avail + reps - 1) ELSE 1
           b3 == IF avail = 1 THEN 0 ELSE IF avail > 2 THEN (b2 * (avail - 1)) \div (avail + reps - 2) ELSE 1
           b4 == (b2 * (reps - 1)) \div avail
           b5 == IF avail < 3 THEN 0 ELSE IF avail > 3 THEN (b3 * (avail - 2)) \div reps ELSE 1
           c == IF layer - cur <= b1 + b3 THEN cur + b4 ELSE IF layer - cur >= range - b5 THEN cur + b1 ELSE layer - b2 - b3
       IN IF c = cur THEN cur + 1 ELSE c

Init == /\ n \in 1..N /\ s \in 1..n
        /\ stack = << [at |-> 0, v |-> 0] >> /\ w1 = None /\ w2 = None /\ i = 0 /\ req = n - 1 /\ next = None /\ pc = "ask" /\ sch = <<>>
Log(e, a) == sch' = Append(sch, [ev |-> e, at |-> a])
Pop == pc = "ask" /\ req < Top.at /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<n, s, w1, w2, i, req, next, pc, sch>>
Hit == pc = "ask" /\ req = Top.at /\ pc' = "use" /\ i' = Top.v /\ UNCHANGED <<n, s, stack, w1, w2, req, next, sch>>
First == /\ pc = "ask" /\ req > Top.at /\ next' = NextCheck(req, stack)
         /\ w1' = Ev(Top.at, Top.v) /\ i' = Top.at + 1 /\ pc' = "loop" /\ Log(TRUE, Top.at) /\ UNCHANGED <<n, s, stack, w2, req>>
Loop == /\ pc = "loop" /\ i < req
        /\ LET push == i = next  st == IF push THEN Append(stack, [at |-> i, v |-> w1]) ELSE stack
           IN stack' = st /\ next' = IF push THEN NextCheck(req, st) ELSE next
        /\ w1' = Ev(i, w1) /\ w2' = w1 /\ i' = i + 1 /\ Log(TRUE, i) /\ UNCHANGED <<n, s, req, pc>>
Done == pc = "loop" /\ i = req /\ i' = w1 /\ pc' = "use" /\ UNCHANGED <<n, s, stack, w1, w2, req, next, sch>>
(* The caller uses the input it was given and goes on to the layer before. *)
Use == /\ pc = "use" /\ Log(FALSE, i) /\ IF req = 0 THEN pc' = "end" /\ req' = req ELSE pc' = "ask" /\ req' = req - 1
       /\ UNCHANGED <<n, s, stack, w1, w2, i, next>>
Next == Pop \/ Hit \/ First \/ Loop \/ Done \/ Use
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Fact(_)
Fact(k) == IF k <= 1 THEN 1 ELSE k * Fact(k - 1)
RightInput == pc = "use" => i = req
Room == Len(stack) <= s
Ordered == \A k \in 1..Len(stack) : stack[k].v = stack[k].at /\ (k > 1 => stack[k-1].at < stack[k].at)
Finished == pc = "end" => Proper(n, sch) /\ Available(sch) /\ WithinBudget(sch, s) /\ Descends(sch, n)
Cost == pc = "end" => /\ Evals(sch) <= (n * (n - 1)) \div 2 /\ (s = n => Evals(sch) = n - 1) /\ Thrifty(Evals(sch), n, s)
Optimal == pc = "end" => Evals(sch) = Least(n, s)
Show == pc = "end" => PrintT(<<n, s, Evals(sch), Least(n, s)>>)
Ends == <>(pc = "end")
=============================================================================
