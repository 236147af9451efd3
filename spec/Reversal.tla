------------------------------ MODULE Reversal ------------------------------
(* Going backwards through a chain of n layers with room for s states: the input of layer i (from 0) is x_i,   *)
(* layer i turns x_i into x_{i+1}.  Only x_0 is given; the rest is evaluated, kept while there is room, and     *)
(* evaluated again when it was not kept.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

(* A schedule is a sequence of [ev, at]: ev = TRUE evaluates layer `at`, FALSE uses the input of layer `at`.   *)
Proper(n, sch) == \A t \in 1..Len(sch) : sch[t].at \in 0..n-1
(* Where the x_i needed at position t was last evaluated (0 when it was not). *)
From(sch, t) == Max0({u \in 1..t-1 : sch[u].ev /\ sch[u].at = sch[t].at - 1})
Available(sch) == \A t \in 1..Len(sch) : sch[t].at > 0 => From(sch, t) > 0
(* How many of x_1 .. x_{n-1} are held during step t: those evaluated at or before t and needed at or after t;  *)
(* F[u] is From(sch, u). *)
HeldAt(sch, F, t) == Cardinality({sch[u].at : u \in {v \in t..Len(sch) : F[v] > 0 /\ F[v] <= t}})
                     + (IF sch[t].ev /\ ~\E u \in t+1..Len(sch) : F[u] = t THEN 1 ELSE 0)
(* Which others than the input in use at t live on from before t until after t. *)
Across(sch, F, t) == Cardinality({sch[u].at : u \in {v \in t+1..Len(sch) : F[v] > 0 /\ F[v] < t /\ sch[v].at # sch[t].at}})
(* x_0 and s-1 others are kept from one use to the next; two more are in use while a layer is evaluated. *)
WithinBudget(sch, s) == LET F == TLCEval([t \in 1..Len(sch) |-> IF sch[t].at = 0 THEN 0 ELSE From(sch, t)])
                        IN \A t \in 1..Len(sch) : HeldAt(sch, F, t) <= s + 1 /\ (sch[t].ev \/ Across(sch, F, t) <= s - 1)
Evals(sch) == Cardinality({t \in 1..Len(sch) : sch[t].ev})
(* The least number of evaluations that reverses n layers with s stored states (Griewank and Walther). *)
RECURSIVE Binom(_, _)
Binom(a, b) == IF b = 0 THEN 1 ELSE (Binom(a - 1, b - 1) * a) \div b
Reps(nn, ss) == CHOOSE r \in 0..nn : Binom(ss + r, ss) >= nn /\ (r = 0 \/ Binom(ss + r - 1, ss) < nn)
Least(nn, ss) == LET r == Reps(nn, ss) IN r * nn - (IF r = 0 THEN 0 ELSE Binom(ss + r, r - 1))
(* The documented scheme is the optimal one; the code stays within a fifth of it (with two states, a half). *)
Thrifty(k, nn, ss) == IF ss >= nn THEN k <= nn - 1
                      ELSE k <= (nn * (nn - 1)) \div 2 /\ IF ss = 2 THEN 2 * k <= 3 * Least(nn, ss) ELSE 5 * k <= 6 * Least(nn, ss)
Descends(sch, n) == LET U == SelectSeq(sch, LAMBDA a : ~a.ev) IN Len(U) >= n /\ \A k \in 1..Len(U)-1 : U[k+1].at <= U[k].at
=============================================================================
