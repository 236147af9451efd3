------------------------------- MODULE MISet -------------------------------
(* The abstract multi-index set: a length, a limiter, and the sequence of   *)
(* active multi-indices in the order in which they became active.  Every    *)
(* query and every operation of MultiIndexSet is defined from those three.  *)
EXTENDS MultiIdx

MkSet(n, lim, act) == [len |-> n, lim |-> lim, act |-> act]

Act(s) == Rng(s.act)
Acc(s, m) == Accepts(s.lim, m)
IndexOf(s, m) == IF \E i \in 1..Len(s.act) : s.act[i] = m
                 THEN (CHOOSE i \in 1..Len(s.act) : s.act[i] = m) - 1 ELSE -1
MaxOrders(s) == [d \in 1..s.len |-> IF s.act = <<>> THEN 0 ELSE MaxOf({m[d] : m \in Act(s)})]

(* Inactive multi-indices all of whose backward neighbours are active.      *)
FullyBacked(s, m) == Bwd(m) \subseteq Act(s)
InactiveFwd(s, m) == {f \in Fwd(m) : f \notin Act(s) /\ Acc(s, f)}
AdmFwd(s, m) == {f \in InactiveFwd(s, m) : FullyBacked(s, f)}

(* --- queries --- *)
Margin(s) == UNION {InactiveFwd(s, m) : m \in Act(s)}
(* The origin has no backward neighbours; whether an inactive origin counts *)
(* is not documented, so RM is given as a lower and an upper bound.         *)
RMLow(s) == {m \in Margin(s) : FullyBacked(s, m)}
RMHigh(s) == RMLow(s) \cup {z \in {Zero(s.len)} : z \notin Act(s) /\ Acc(s, z)}
Admissible(s, m) == Acc(s, m) /\ (m \in Act(s) \/ (m \in Margin(s) /\ FullyBacked(s, m)))
Expandable(s, m) == AdmFwd(s, m) # {}
NumActiveFwd(s, m) == Cardinality(Fwd(m) \cap Act(s))
NumFwd(s, m) == Cardinality({f \in Fwd(m) : Acc(s, f)})
Frontier(s) == {i \in 0..(Len(s.act) - 1) : Expandable(s, s.act[i + 1])}
StrictFrontier(s) == {i \in Frontier(s) : NumActiveFwd(s, s.act[i + 1]) = 0}

(* --- operations: the set of multi-indices an operation activates --- *)
AddNew(s, m) == IF Acc(s, m) /\ m \notin Act(s) THEN {m} ELSE {}
ExpandNew(s, i) == AdmFwd(s, s.act[i + 1])
ExpandAllNew(s) == UNION {AdmFwd(s, m) : m \in Act(s)}
RECURSIVE Closure(_, _)      \* m and the inactive accepted ancestors it needs
Closure(s, S) == LET more == {b \in UNION {Bwd(m) : m \in S} : b \notin Act(s) /\ b \notin S /\ Acc(s, b)}
                 IN IF more = {} THEN S ELSE Closure(s, S \cup more)
FActivateNew(s, m) == IF m \in Act(s) THEN {} ELSE Closure(s, {m})
FExpandNew(s, i) == LET F == InactiveFwd(s, s.act[i + 1]) IN IF F = {} THEN {} ELSE Closure(s, F)
UnionNew(s, t) == {m \in Act(t) : m \notin Act(s) /\ Acc(s, m)}
LimiterOK(s, lim) == \A m \in Act(s) : Accepts(lim, m)

(* t extends s by exactly the multi-indices in N, each once. *)
Grows(s, t, N) == /\ Len(t.act) = Len(s.act) + Cardinality(N)
                  /\ \A i \in 1..Len(s.act) : t.act[i] = s.act[i]
                  /\ Act(t) = Act(s) \cup N

(* --- factories --- *)
TotalOrderSet(n, p, lim) == {m \in Box(n, p) : SumSeq(m) <= p /\ Accepts(lim, m)}
TensorSet(n, p, lim) == {m \in Box(n, p) : Accepts(lim, m)}

(* --- consequences, checked on the exhaustive model --- *)
Closed(s) == \A m \in Act(s) : Bwd(m) \subseteq Act(s)
LimiterClosed(lim, n, k) == \A m \in Box(n, k) : Accepts(lim, m) => \A b \in Bwd(m) : Accepts(lim, b)
WellFormed(s) == NoDup(s.act) /\ \A m \in Act(s) : Len(m) = s.len /\ Acc(s, m)
=============================================================================
