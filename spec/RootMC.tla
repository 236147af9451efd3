------------------------------- MODULE RootMC -------------------------------
(* The bracketed search for a root (MParT/Utilities/RootFinding.h): the bracket is never left and at least halves *)
(* per step up to a window that shrinks by two each time, whatever interpolation proposes inside the window, so   *)
(* that the number of steps is that of bisection plus two.  Positions are integers, Eps of them the requested     *)
(* tolerance; everything is checked for every monotone function (its crossing), bracket and choice of points.     *)
(* Positions are relative to the lower end of the bracket.                                                        *)
EXTENDS Integers
CONSTANTS Eps, K            \* brackets up to Eps * 2^K wide
VARIABLES steps, w, r, it, pc
vars == <<steps, w, r, it, pc>>
HalvingsOf(v) == CHOOSE k \in 0..K + 1 : 2 * Eps * 2 ^ k >= v /\ (k = 0 \/ 2 * Eps * 2 ^ (k - 1) < v)
(* Twice the half width of the window around the middle; 1 is the rounding of positions. *)
Window2 == LET e2 == IF it <= steps THEN 2 * Eps * 2 ^ (steps - it) ELSE (2 * Eps) \div 2 ^ (it - steps)
           IN IF e2 - w < 0 THEN 0 ELSE IF e2 - w < w THEN e2 - w ELSE w
Init == /\ w \in 1..Eps * 2 ^ K /\ steps = HalvingsOf(w) + 1 /\ r \in 1..w     \* f < target exactly below r
        /\ it = 0 /\ pc = "go"
Abs(a) == IF a < 0 THEN -a ELSE a
Move(y) == /\ w' = (IF y < r THEN w - y ELSE y) /\ r' = (IF y < r THEN r - y ELSE r)
           /\ it' = it + 1
           /\ pc' = IF w' < Eps THEN "end" ELSE "go"
           /\ UNCHANGED steps
Step == pc = "go" /\ \E y \in 0..w : Abs(2 * y - w) <= Window2 + 1 /\ Move(y)
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Brackets == 0 < r /\ r <= w
Shrinks == pc = "go" => w <= 2 * Eps * 2 ^ (IF it <= steps THEN steps - it ELSE 0) + 2
Effort == it <= steps + 2
Ends == <>(pc = "end")
=============================================================================
