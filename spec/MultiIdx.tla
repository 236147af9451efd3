------------------------------ MODULE MultiIdx ------------------------------
(* Multi-indices, limiters and neighbourhoods: the vocabulary in which the  *)
(* multi-index set specification (MISet) and the expansions are written.    *)
(* A multi-index is a sequence of naturals.                                 *)
EXTENDS Integers, Sequences, FiniteSets, Float

Rng(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(Rng(s)) = Len(s)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
MaxSeq(s) == IF s = <<>> THEN 0 ELSE MaxOf(Rng(s))
NumNz(m) == Cardinality({i \in 1..Len(m) : m[i] # 0})
Zero(n) == [i \in 1..n |-> 0]

Fwd(m) == {[m EXCEPT ![i] = @ + 1] : i \in 1..Len(m)}
Bwd(m) == {[m EXCEPT ![i] = @ - 1] : i \in {j \in 1..Len(m) : m[j] > 0}}
IsFwd(b, n) == Len(b) = Len(n) /\ n \in Fwd(b)

(* All multi-indices of length n with every component at most k. *)
Box(n, k) == [1..n -> 0..k]

(* Limiters in the prefix form of the driver. *)
RECURSIVE Accepts(_, _)
Accepts(lim, m) ==
  CASE lim[1] = "None" -> TRUE
    [] lim[1] = "TotalOrder" -> SumSeq(m) <= lim[2]
    [] lim[1] = "MaxDegree" -> /\ Len(lim[2]) = Len(m)
                               /\ \A i \in 1..Len(m) : m[i] <= lim[2][i]
    [] lim[1] = "Dimension" -> \A i \in 1..Len(m) : (i <= lim[2] \/ i > lim[2] + lim[3]) => m[i] = 0
    [] lim[1] = "Aniso" -> /\ Len(lim[2]) = Len(m)
                           /\ FLe(FDiv(FI(lim[3]), FI(100)),
                                  FProd([i \in 1..Len(m) |-> FPowI(FDiv(FI(lim[2][i]), FI(4)), m[i])]))
    [] lim[1] = "And" -> Accepts(lim[2], m) /\ Accepts(lim[3], m)
    [] lim[1] = "Or"  -> Accepts(lim[2], m) \/ Accepts(lim[3], m)
    [] lim[1] = "Xor" -> Accepts(lim[2], m) # Accepts(lim[3], m)

(* The lexicographic enumeration used by the factories. *)
RECURSIVE LexLt(_, _)
LexLt(a, b) == IF a = <<>> THEN FALSE
               ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
               ELSE LexLt(Tail(a), Tail(b))
LexSorted(s) == \A i \in 1..(Len(s) - 1) : LexLt(s[i], s[i + 1])

(* The strict total order on multi-indices: length, then total order, then  *)
(* largest component, then lexicographic.                                   *)
MLt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
             ELSE IF SumSeq(a) # SumSeq(b) THEN SumSeq(a) < SumSeq(b)
             ELSE IF MaxSeq(a) # MaxSeq(b) THEN MaxSeq(a) < MaxSeq(b)
             ELSE LexLt(a, b)
=============================================================================
