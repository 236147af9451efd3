------------------------------- MODULE AdaptMC -------------------------------
(* The traversal of AdaptiveSimpson (MParT/Quadrature.h): a depth first walk without recursion over all trees of   *)
(* accepted and refined intervals to depth D.  Function values are kept in a workspace of three plus two slots per *)
(* level and found again by pointers; on the way back up the pointers are rebuilt from the branches taken.  A      *)
(* slot holds the point whose value it stores.  The interval is 0..2^(D+2), so that every point is an integer.     *)
EXTENDS Integers, Sequences, TLC
CONSTANT D
VARIABLES lev, seg, val, pts, L, M, R, covered, leaves, pc
vars == <<lev, seg, val, pts, L, M, R, covered, leaves, pc>>
None == 0 - 1
W == 2 ^ (D + 2)
Slots == {<<"L", 0>>, <<"M", 0>>, <<"R", 0>>} \cup ({"l", "r"} \X (0..D))
Init == /\ lev = 0 /\ seg = [k \in 0..D |-> 0] /\ pts = [k \in 0..D |-> IF k = 0 THEN <<0, W>> ELSE <<None, None>>]
        /\ val = [s \in Slots |-> IF s[1] = "L" THEN 0 ELSE IF s[1] = "R" THEN W ELSE IF s[1] = "M" THEN W \div 2 ELSE None]
        /\ L = <<"L", 0>> /\ M = <<"M", 0>> /\ R = <<"R", 0>> /\ covered = 0 /\ leaves = <<>> /\ pc = "go"

Mid(a, b) == (a + b) \div 2
A == pts[lev][1]
B == pts[lev][2]
Stored == [val EXCEPT ![<<"l", lev>>] = Mid(A, Mid(A, B)), ![<<"r", lev>>] = Mid(Mid(A, B), B)]

Refine == /\ pc = "go" /\ lev < D
          /\ val' = Stored /\ lev' = lev + 1 /\ R' = M /\ M' = <<"l", lev>>
          /\ pts' = [pts EXCEPT ![lev + 1] = <<A, Mid(A, B)>>]
          /\ UNCHANGED <<seg, L, covered, leaves, pc>>
(* The lowest level above that was left towards the left. *)
RECURSIVE Up(_, _)
Up(k, sg) == IF k > 0 /\ sg[k] = 1 THEN Up(k - 1, [sg EXCEPT ![k] = 0]) ELSE <<k, sg>>
RECURSIVE Pointers(_, _, _, _)
Pointers(k, to, sg, p) == IF k = to THEN p
  ELSE Pointers(k + 1, to, sg, IF sg[k + 1] = 1 THEN <<p[2], <<"r", k>>, p[3]>> ELSE <<p[1], <<"l", k>>, p[2]>>)
Accept == /\ pc = "go"
          /\ val' = Stored /\ covered' = B /\ leaves' = Append(leaves, lev)
          /\ LET u == Up(lev, seg)  k == u[1]  sg == [u[2] EXCEPT ![k] = IF k = 0 THEN @ ELSE 1] IN
             IF k = 0 THEN pc' = "end" /\ lev' = 0 /\ UNCHANGED <<seg, pts, L, M, R>>
             ELSE LET p == Pointers(0, k, sg, << <<"L", 0>>, <<"M", 0>>, <<"R", 0>> >>) IN
                  /\ lev' = k /\ seg' = sg /\ pc' = "go"
                  /\ pts' = [pts EXCEPT ![k] = <<Mid(pts[k-1][1], pts[k-1][2]), pts[k-1][2]>>]
                  /\ L' = p[1] /\ M' = p[2] /\ R' = p[3]
Next == Refine \/ Accept
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* What every step relies on: the three pointers lead to the values at the ends and the middle of its interval, *)
(* which starts where the part already integrated ends.                                                          *)
Values == pc = "go" => val[L] = A /\ val[M] = Mid(A, B) /\ val[R] = B
Continues == pc = "go" => A = covered /\ B - A = W \div 2 ^ lev
Covers == pc = "end" => covered = W
Ends == <>(pc = "end")
Emit == pc = "end" => PrintT("TREE " \o ToString(leaves))
=============================================================================
