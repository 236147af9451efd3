------------------------------ MODULE TraceLin ------------------------------
(* Conformance of array conversions and linear algebra.                     *)
(* A buffer is a flat sequence of values; an object is a window into one    *)
(* buffer: a matrix of positions.  Conversions make windows or copies.      *)
EXTENDS LinAlg, TraceKit

VARIABLES l, buf, obj, fac
vars == <<l, buf, obj, fac>>
E == Trace[l]

Val(id) == [i \in 1..Len(obj[id].cells) |-> [j \in 1..Len(obj[id].cells[i]) |-> buf[obj[id].b][obj[id].cells[i][j]]]]
ValIn(B, o) == [i \in 1..Len(o.cells) |-> [j \in 1..Len(o.cells[i]) |-> B[o.b][o.cells[i][j]]]]
Grid(r, c) == [i \in 1..r |-> [j \in 1..c |-> (i-1)*c + j]]
RECURSIVE Flat(_)
Flat(M) == IF M = <<>> THEN <<>> ELSE M[1] \o Flat(Tail(M))

(* The positions of the window that a conversion of object a with parameters p makes. *)
Window(how, C, p) ==
  CASE how \in {"tk1", "tkc1"} -> [i \in 1..p[1] |-> C[i]]
    [] how \in {"tkl", "tkcl"} -> [i \in 1..p[1] |-> [j \in 1..p[2] |-> C[(i-1) + (j-1)*p[1] + 1][1]]]
    [] how \in {"tkr", "tkcr"} -> [i \in 1..p[1] |-> [j \in 1..p[2] |-> C[(i-1)*p[2] + (j-1) + 1][1]]]
    [] how = "tkt2" -> [i \in 1..p[1] |-> [j \in 1..p[2] |-> C[(i-1)*p[3] + (j-1)*p[4] + 1][1]]]
    [] how = "tkt1" -> [i \in 1..p[1] |-> C[(i-1)*p[2] + 1]]
    [] how \in {"m2k", "mck"} -> [i \in 1..(Len(C) \div p[1]) |-> [j \in 1..p[1] |-> C[(i-1)*p[1] + j][1]]]
    [] how \in {"e2kb", "ce2kb"} -> [i \in 1..p[3] |-> [j \in 1..p[4] |-> C[p[1] + i][p[2] + j]]]
    [] how = "ev2ks" -> [i \in 1..p[2] |-> C[p[1] + i]]
    [] how = "row2k" -> [j \in 1..Len(C[1]) |-> <<C[p[1] + 1][j]>>]
    [] how = "col2k" -> [i \in 1..Len(C) |-> <<C[i][p[1] + 1]>>]
    [] how \in {"v2k", "cv2k", "vck", "e2k", "ce2k", "ev2k", "k2m", "ck2m", "k2v"} -> C
IsConst(how) == how \in {"tkc1", "tkcl", "tkcr", "vck", "mck", "ce2k", "ce2kb", "ck2m"}

Win(b, cells, c) == [b |-> b, cells |-> cells, const |-> c]
NewObj(id, r, c) == (id :> Win(id, Grid(r, c), FALSE)) @@ obj

(* The windows after the event.  An event that makes a buffer names it after the object. *)
Objs(e) ==
  CASE e.op = "alloc" -> NewObj(e.id, e.rows, e.cols)
    [] e.op = "conv" -> IF e.copy THEN NewObj(e.id, Len(obj[e.a].cells), Len(obj[e.a].cells[1]))
                        ELSE (e.id :> Win(obj[e.a].b, Window(e.how, obj[e.a].cells, e.p), IsConst(e.how))) @@ obj
    [] e.op = "drop" -> [k \in DOMAIN obj \ {e.id} |-> obj[k]]
    [] e.op = "mul" -> NewObj(e.id, NR(Op(Val(e.a), e.ta)), NC(Op(Val(e.b), e.tb)))
    [] e.op = "plus" -> NewObj(e.id, NR(Val(e.a)), NC(Val(e.a)))
    [] e.op = "reduce" -> NewObj(e.id, IF e.dim = 1 THEN NR(Val(e.a)) ELSE NC(Val(e.a)), 1)
    [] e.op \in {"solve", "csolve", "cmull"} -> NewObj(e.id, NR(Val(e.b)), NC(Val(e.b)))
    [] OTHER -> obj
Made(e) == CASE e.op \in {"alloc", "mul", "plus", "reduce", "solve", "csolve", "cmull"} -> {e.id}
             [] e.op = "conv" -> IF e.copy THEN {e.id} ELSE {}
             [] OTHER -> {}
(* The object whose cells the event writes, 0 if none. *)
Target(e) == CASE e.op = "gemm" -> e.c [] e.op = "add" -> e.a [] e.op \in {"solvei", "csolvei", "csolvel"} -> e.b [] OTHER -> 0

ObsBufs(e) == [b \in {e.bufs[i].b : i \in 1..Len(e.bufs)} |-> LET i == CHOOSE i \in 1..Len(e.bufs) : e.bufs[i].b = b IN e.bufs[i].v]
CellsOf(o) == UNION {{o.cells[i][j] : j \in 1..Len(o.cells[i])} : i \in 1..Len(o.cells)}
(* Everything that the event does not write keeps its value. *)
Untouched(e, B) ==
  \A b \in DOMAIN buf : b \in Made(e) \/
    LET t == Target(e)
        W == IF e.op = "put" /\ e.ret = "ok" /\ obj[e.id].b = b THEN {obj[e.id].cells[e.i + 1][e.j + 1]}
             ELSE IF t # 0 /\ obj[t].b = b THEN CellsOf(obj[t]) ELSE {}
    IN b \in DOMAIN B /\ Len(B[b]) = Len(buf[b]) /\ \A k \in 1..Len(buf[b]) : k \in W \/ B[b][k] = buf[b][k]
Windows(e, B, O) ==
  /\ {e.objs[i].id : i \in 1..Len(e.objs)} = DOMAIN O
  /\ \A i \in 1..Len(e.objs) : LET o == O[e.objs[i].id] IN o.b \in DOMAIN B /\ e.objs[i].v = ValIn(B, o)

Result(e, B) == LET o == IF Target(e) # 0 THEN obj[Target(e)] ELSE Objs(e)[e.id] IN ValIn(B, o)
TT == FDec("1e-13")
ScaledSum(A, B) == FMul(TT, FAdd(MaxAbs(A), MaxAbs(B)))
DetOK(e, A) == LET d == DetE(A) IN FClose(e.det, d, FDec("1e-9"), F0)
Checks(e) ==
  LET B == ObsBufs(e)  O == Objs(e) IN
  << <<"untouched", Untouched(e, B)>>, <<"windows", Windows(e, B, O)>> >> \o
  CASE e.op = "alloc" -> << <<"alloc", B[e.id] = Flat(e.v)>> >>
    [] e.op = "conv" -> IF e.copy THEN << <<"copy", Result(e, B) = Val(e.a)>> >> ELSE <<>>
    [] e.op = "put" -> << <<"outcome:put", e.ret = IF obj[e.id].const THEN "const" ELSE "ok">>,
                          <<"put", e.ret = "ok" => B[obj[e.id].b][obj[e.id].cells[e.i + 1][e.j + 1]] = e.x>> >>
    [] e.op = "gemm" -> LET A == Op(Val(e.a), e.ta)  M == Op(Val(e.b), e.tb)  C == Val(e.c)
                            P == MatScale(e.al, MatMul(A, M))
                            W == IF e.be = F0 THEN P ELSE MatAdd(P, MatScale(e.be, C))       \* then C need not even hold numbers
                        IN << <<"product", MClose(Result(e, B), W, FAdd(FMul(FAbs(e.al), MulTol(A, M)), IF e.be = F0 THEN F0 ELSE FMul(TT, FMul(FAbs(e.be), MaxAbs(C)))))>> >>
    [] e.op = "mul" -> LET A == Op(Val(e.a), e.ta)  M == Op(Val(e.b), e.tb)
                       IN << <<"product", MClose(Result(e, B), MatMul(A, M), MulTol(A, M))>>, <<"transposed-size", e.tdims = <<NR(A), NC(A)>>>> >>
    [] e.op \in {"add", "plus"} -> << <<"sum", MClose(Result(e, B), MatAdd(Val(e.a), Val(e.b)), ScaledSum(Val(e.a), Val(e.b)))>> >>
    [] e.op = "reduce" -> LET A == Val(e.a)  W == Reduce(e.map, e.dim, e.al, A)
                              s == IF e.map = "norm" THEN FMul(MaxAbs(A), MaxAbs(A)) ELSE MaxAbs(A)
                          IN << <<"reduction", MClose(Result(e, B), W, FMul(FMul(TT, FI(NR(A) + NC(A))), FMul(FAbs(e.al), s)))>> >>
    [] e.op \in {"lu", "chol"} -> << <<"determinant", DetOK(e, Val(e.a))>> >>
    [] e.op = "lucopy" -> << <<"determinant", DetOK(e, fac[<<"lu", e.g>>])>> >>
    [] e.op \in {"solve", "csolve"} -> << <<"solution", Solves(fac[<<IF e.op = "solve" THEN "lu" ELSE "chol", e.f>>], Result(e, B), Val(e.b))>> >>
    [] e.op \in {"solvei", "csolvei"} -> << <<"solution", Solves(fac[<<IF e.op = "solvei" THEN "lu" ELSE "chol", e.f>>], Result(e, B), Val(e.b))>> >>
    [] e.op = "csolvel" -> << <<"factor-solution", Solves(CholL(fac[<<"chol", e.f>>]), Result(e, B), Val(e.b))>> >>
    [] e.op = "cmull" -> LET L == CholL(fac[<<"chol", e.f>>]) IN << <<"factor-product", MClose(Result(e, B), MatMul(L, Val(e.b)), FMul(FI(10), MulTol(L, Val(e.b))))>> >>
    [] e.op = "tohost" -> << <<"host-copy", e.v = Val(e.a)>> >>
    [] e.op = "drop" -> <<>>
    [] OTHER -> << <<"known-event", FALSE>> >>

GetOpt(e) == LET S == {i \in 1..Len(e.kv) : e.kv[i][1] = e.key} IN IF S = {} THEN e.def ELSE LET m == CHOOSE i \in S : \A k \in S : k <= i IN e.kv[m][2]
Facs(e) == CASE e.op \in {"lu", "chol"} -> (<<e.op, e.f>> :> Val(e.a)) @@ fac
             [] e.op = "lucopy" -> (<<"lu", e.f>> :> fac[<<"lu", e.g>>]) @@ fac
             [] OTHER -> fac

Init == l = 1 /\ buf = <<>> /\ obj = <<>> /\ fac = <<>>
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF E.op = "reset" THEN buf' = <<>> /\ obj' = <<>> /\ fac' = <<>>
     ELSE IF E.op = "Crash" THEN Report(l, {"crash"}) /\ UNCHANGED <<buf, obj, fac>>
     ELSE IF E.op = "getopt" THEN Report(l, Failing(<< <<"option", E.got = GetOpt(E)>> >>)) /\ UNCHANGED <<buf, obj, fac>>
     ELSE /\ Report(l, Failing(Checks(E)))
          /\ buf' = ObsBufs(E) /\ obj' = Objs(E) /\ fac' = Facs(E)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
