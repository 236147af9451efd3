------------------------------- MODULE CoeffMC -------------------------------
(* Exhaustive exploration of coefficient ownership: every way a few objects   *)
(* and user arrays can come to share memory, up to the values stored.  Every  *)
(* transition is printed as the command history that reaches it.              *)
EXTENDS CoeffMem, FiniteSets
CONSTANT Cfg            \* [leaf, cont, buf]
VARIABLES hh, m, hist
vars == <<hh, m, hist>>

Leaf(n) == [k |-> "mono", nc |-> n]
Flat == [leaf |-> (1 :> 2 @@ 2 :> 3), cont |-> (3 :> <<"tri", <<1, 2>> >>), buf |-> (1 :> 2 @@ 2 :> 5)]
Nest == [leaf |-> (1 :> 2 @@ 2 :> 1), cont |-> (3 :> <<"tri", <<1>> >> @@ 4 :> <<"tri", <<3, 2>> >>), buf |-> (1 :> 2 @@ 2 :> 3)]
Comp == [leaf |-> (1 :> 2 @@ 2 :> 2), cont |-> (3 :> <<"tri", <<1>> >> @@ 4 :> <<"tri", <<2>> >> @@ 5 :> <<"comp", <<3, 4>> >>), buf |-> (1 :> 2 @@ 2 :> 4)]
Sum == [leaf |-> (1 :> 2 @@ 2 :> 3), cont |-> (3 :> <<"sum", <<1, 2>> >>), buf |-> (1 :> 3)]

Shared == [leaf |-> (1 :> 2), cont |-> (3 :> <<"tri", <<1>> >> @@ 4 :> <<"tri", <<1>> >>), buf |-> (1 :> 2 @@ 2 :> 2)]
Triple == [leaf |-> (1 :> 1 @@ 2 :> 2 @@ 3 :> 2), cont |-> (4 :> <<"tri", <<1, 2, 3>> >>), buf |-> (1 :> 2 @@ 2 :> 5 @@ 3 :> 2)]

Ids == DOMAIN Cfg.leaf \cup DOMAIN Cfg.cont
NcOf(kind, ch) == IF kind = "sum" THEN hh[ch[2]].nc ELSE LET F[i \in 0..Len(ch)] == IF i = 0 THEN 0 ELSE F[i-1] + hh[ch[i]].nc IN F[Len(ch)]
Node(kind, ch) == [k |-> kind, nc |-> NcOf(kind, ch), ch |-> ch, g |-> IF kind = "sum" THEN ch[2] ELSE 0]
Str(x) == ToString(x)
RECURSIVE StrS(_)
StrS(s) == IF s = <<>> THEN "" ELSE " " \o Str(s[1]) \o StrS(Tail(s))

Init == /\ hh = [i \in DOMAIN Cfg.leaf |-> Leaf(Cfg.leaf[i])]
        /\ m = [own |-> [i \in DOMAIN Cfg.leaf |-> <<-i, 0>>],
                buf |-> [b \in {-i : i \in DOMAIN Cfg.leaf} |-> [j \in 1..Cfg.leaf[-b] |-> 0]] @@ [b \in DOMAIN Cfg.buf |-> [j \in 1..Cfg.buf[b] |-> 0]],
                nb |-> -10]
        /\ hist = <<>>
Do(cmd, m2) == m' = m2 /\ hist' = Append(hist, cmd) /\ UNCHANGED hh
MakeC == \E i \in DOMAIN Cfg.cont \ DOMAIN hh : \E mv \in {0, 1} :
   LET c == Cfg.cont[i] IN
   /\ \A j \in 1..Len(c[2]) : c[2][j] \in DOMAIN hh
   /\ (c[1] = "sum" => mv = 0)
   /\ LET g == (i :> Node(c[1], c[2])) @@ hh
          m1 == [m EXCEPT !.own = (i :> <<0, 0>>) @@ @]
          ok == mv = 0 \/ \A j \in 1..Len(c[2]) : IsSet(hh, m, c[2][j])
      IN /\ hh' = IF ok THEN g ELSE hh
         /\ m' = IF ~ok THEN m ELSE IF mv = 1 THEN MoveOp(g, m1, i) ELSE m1
         /\ hist' = Append(hist, IF c[1] = "sum" THEN "sum " \o Str(i) \o StrS(c[2])
                                 ELSE c[1] \o " " \o Str(i) \o " " \o Str(Len(c[2])) \o StrS(c[2]) \o " " \o Str(mv) \o (IF c[1] = "comp" THEN " 0" ELSE ""))
SetC == \E i \in DOMAIN hh : \E n \in {hh[i].nc, hh[i].nc + 1} : n > 0 /\ Do("SET " \o Str(i) \o " " \o Str(n), SetOp(hh, m, i, [j \in 1..n |-> 0]).m)
SetB == \E i \in DOMAIN hh : \E b \in DOMAIN Cfg.buf : Do("setcb " \o Str(i) \o " " \o Str(b), SetOp(hh, m, i, m.buf[b]).m)
WrapC == \E i \in DOMAIN hh : \E b \in DOMAIN Cfg.buf : Do("WRAP " \o Str(i) \o " " \o Str(b), WrapOp(hh, m, i, b).m)
Next == MakeC \/ SetC \/ SetB \/ WrapC
Spec == Init /\ [][Next]_vars

(* Two states are the same when the same objects share the same memory. *)
Canon(i) == IF m.own[i][1] >= 0 THEN m.own[i]
            ELSE LET S == {j \in DOMAIN hh : m.own[j][1] = m.own[i][1]} IN <<- (CHOOSE j \in S : \A k \in S : j <= k), m.own[i][2]>>
View == <<hh, [i \in DOMAIN hh |-> Canon(i)]>>
Emit == PrintT("TEST " \o ToString(hist'))

(* After a successful set or wrap of a container its components are slices of its memory, in order. *)
RECURSIVE Slices(_, _, _, _)
Slices(ch, i, b, o) == i > Len(ch) \/ (m.own[ch[i]] = <<b, o>> /\ Slices(ch, i + 1, b, o + hh[ch[i]].nc))
LastObj == LET c == hist[Len(hist)] IN c
InvBounds == \A i \in DOMAIN hh : m.own[i][1] # 0 => m.own[i][1] \in DOMAIN m.buf /\ m.own[i][2] + hh[i].nc <= Len(m.buf[m.own[i][1]])
(* Different objects that are not related as container and component never share internal memory. *)
RECURSIVE Within(_, _)
Within(i, j) == i = j \/ (hh[j].k \in {"tri", "comp", "sum"} /\ \E k \in 1..Len(hh[j].ch) : Within(i, hh[j].ch[k]))
Overlap(i, j) == /\ m.own[i][1] = m.own[j][1] /\ m.own[i][1] < 0
                 /\ m.own[i][2] < m.own[j][2] + hh[j].nc /\ m.own[j][2] < m.own[i][2] + hh[i].nc
InvShare == \A i, j \in DOMAIN hh : (i # j /\ Overlap(i, j)) => \E t \in DOMAIN hh : Within(i, t) /\ Within(j, t)
=============================================================================
