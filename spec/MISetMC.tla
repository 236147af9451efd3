------------------------------ MODULE MISetMC ------------------------------
(* Exhaustive exploration of MISet within small constants.  The history h   *)
(* (hidden by the view) is the script that reaches the state on the real    *)
(* code; every transition of the explored graph is printed as one test.     *)
EXTENDS MISet, TLC

CONSTANTS N, K, Limiters
LimNone == {<<"None">>}
LimMix2 == {<<"None">>, <<"TotalOrder", 2>>, <<"Xor", <<"TotalOrder", 3>>, <<"Dimension", 0, 1>>>>}
LimMix3 == {<<"None">>, <<"MaxDegree", <<1, 0, 1>>>>, <<"Dimension", 1, 1>>}
LimMix1 == {<<"None">>, <<"TotalOrder", 4>>, <<"Xor", <<"TotalOrder", 4>>, <<"TotalOrder", 1>>>>}

VARIABLES s, h
vars == <<s, h>>
View == <<s.len, s.lim, Act(s)>>

Str(x) == ToString(x)
RECURSIVE MStr(_)
MStr(m) == IF m = <<>> THEN "" ELSE " " \o Str(Head(m)) \o MStr(Tail(m))
RECURSIVE LStr(_)
LStr(lim) == CASE lim[1] = "None" -> "None"
               [] lim[1] = "TotalOrder" -> "TotalOrder " \o Str(lim[2])
               [] lim[1] = "MaxDegree" -> "MaxDegree " \o Str(Len(lim[2])) \o MStr(lim[2])
               [] lim[1] = "Dimension" -> "Dimension " \o Str(lim[2]) \o " " \o Str(lim[3])
               [] OTHER -> lim[1] \o " " \o LStr(lim[2]) \o " " \o LStr(lim[3])

RECURSIVE SeqOf(_)      \* some fixed order
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S \ {y} : MLt(y, z)
                                     IN <<x>> \o SeqOf(S \ {x})
Append2(S) == [s EXCEPT !.act = @ \o SeqOf(S)]
Do(cmd, S) == s' = Append2(S) /\ h' = Append(h, cmd)

Mi(m) == Str(N) \o MStr(m)
Init == \E lim \in Limiters : s = MkSet(N, lim, <<>>) /\ h = <<"new 0 " \o Str(N) \o " " \o LStr(lim)>>
Add == \E m \in Box(N, K) : Do("add 0 " \o Mi(m), AddNew(s, m))
ForceActivate == \E m \in Box(N, K) : Acc(s, m) /\ Do("factivate 0 " \o Mi(m), FActivateNew(s, m))
ActivateAdm == \E m \in Box(N, K) : Do("activate 0 " \o Mi(m), IF Admissible(s, m) THEN {m} \ Act(s) ELSE {})
Exp == \E i \in 0..(Len(s.act) - 1) : Do("expand 0 " \o Str(i), ExpandNew(s, i))
ForceExp == \E i \in 0..(Len(s.act) - 1) : Do("fexpand 0 " \o Str(i), FExpandNew(s, i))
ExpAll == Do("expandall 0", ExpandAllNew(s))
SetLim == \E lim \in Limiters : /\ s' = IF LimiterOK(s, lim) THEN [s EXCEPT !.lim = lim] ELSE s
                                /\ h' = Append(h, "setlim 0 " \o LStr(lim))
Next == Add \/ ForceActivate \/ ActivateAdm \/ Exp \/ ForceExp \/ ExpAll \/ SetLim
Spec == Init /\ [][Next]_vars

InBox == \A m \in Act(s) : \A d \in 1..N : m[d] <= K
Emit == PrintT("TEST " \o ToString(h'))

(* --- design properties --- *)
InvWellFormed == WellFormed(s)
InvMargins == /\ RMLow(s) \subseteq Margin(s)
              /\ Margin(s) \cap Act(s) = {}
              /\ \A i \in Frontier(s) : \E m \in RMLow(s) : m \in Fwd(s.act[i + 1])
              /\ (\A m \in RMLow(s) : \E i \in Frontier(s) : m \in Fwd(s.act[i + 1]))
              /\ StrictFrontier(s) \subseteq Frontier(s)
InvExpandEmpty == ExpandAllNew(s) = {} <=> Frontier(s) = {}
InvExpandIsRM == ExpandAllNew(s) = RMLow(s)
(* Union with a subset is a no-op and the union count is symmetric as sets. *)
PropGrow == [][Act(s) \subseteq Act(s')]_vars
(* Starting closed, the admissible operations keep the set closed, and so   *)
(* do the forcible ones when the limiter itself is closed.                  *)
KeepsClosed == (Closed(s) /\ (ActivateAdm \/ Exp \/ ExpAll)) => Closed(s)'
ForceKeepsClosed == (Closed(s) /\ LimiterClosed(s.lim, N, K + 1) /\ (ForceActivate \/ ForceExp)) => Closed(s)'
PropClosed == [][KeepsClosed /\ ForceKeepsClosed]_vars
=============================================================================
