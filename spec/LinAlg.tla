------------------------------- MODULE LinAlg -------------------------------
(* Matrices as sequences of rows; arrays as windows into shared buffers.    *)
EXTENDS Float, FiniteSets

NR(M) == Len(M)
NC(M) == IF M = <<>> THEN 0 ELSE Len(M[1])
Col(M, j) == [i \in 1..Len(M) |-> M[i][j]]
Transp(M) == Vec([j \in 1..NC(M) |-> Vec([i \in 1..NR(M) |-> M[i][j]])])
Op(M, t) == IF t % 2 = 1 THEN Transp(M) ELSE M            \* transposed t times
MatMul(A, B) == LET T == Transp(B) IN Vec([i \in 1..NR(A) |-> Vec([j \in 1..NC(B) |-> FDot(A[i], T[j])])])
MatAdd(A, B) == Vec([i \in 1..NR(A) |-> VAdd(A[i], B[i])])
MatScale(a, A) == Vec([i \in 1..NR(A) |-> VScale(a, A[i])])
MaxAbs(M) == FMaxAbs([i \in 1..Len(M) |-> FMaxAbs(M[i])])
MClose(A, B, tol) == NR(A) = NR(B) /\ \A i \in 1..NR(A) : VClose(A[i], B[i], F0, tol)
(* How far apart two ways of computing a product may be. *)
MulTol(A, B) == FMul(FMul(FDec("1e-13"), FI(NC(A) + 1)), FMul(MaxAbs(A), MaxAbs(B)))

(* The determinant, and its size relative to which it is judged, by elimination with row exchanges. *)
RECURSIVE DetE(_)
DetE(M) ==
  IF M = <<>> THEN F1
  ELSE LET p == CHOOSE i \in 1..Len(M) : \A k \in 1..Len(M) : FLe(FAbs(M[k][1]), FAbs(M[i][1]))
           R == [i \in 1..Len(M)-1 |-> M[IF i < p THEN i ELSE i + 1]]
           S == Vec([i \in 1..Len(R) |-> LET q == FDiv(R[i][1], M[p][1]) IN Vec([j \in 1..Len(R) |-> FSub(R[i][j+1], FMul(q, M[p][j+1]))])])
           d == FMul(M[p][1], DetE(S))
       IN IF p % 2 = 0 THEN FNeg(d) ELSE d

(* X solves A X = B if the residual is that of a backward stable solver. *)
Solves(A, X, B) ==
  /\ NR(X) = NC(A) /\ NC(X) = NC(B)
  /\ MClose(MatMul(A, X), B, FMul(FDec("1e-12"), FAdd(MaxAbs(B), FMul(FI(NC(A)), FMul(MaxAbs(A), MaxAbs(X))))))

(* The lower triangular factor with positive diagonal: L L^T = A. *)
RECURSIVE CholRow(_, _, _, _), CholRows(_, _)
CholRow(A, L, i, acc) ==          \* acc: the first entries of row i
  LET j == Len(acc) + 1 IN
  IF j > i THEN acc \o VZero(Len(A) - i)
  ELSE IF j = i THEN CholRow(A, L, i, Append(acc, FSqrt(FSub(A[i][i], FDot(acc, acc)))))
  ELSE CholRow(A, L, i, Append(acc, FDiv(FSub(A[i][j], FDot(acc, SubSeq(L[j], 1, j - 1))), L[j][j])))
CholRows(A, L) == IF Len(L) = Len(A) THEN L ELSE CholRows(A, Append(L, CholRow(A, L, Len(L) + 1, <<>>)))
CholL(A) == CholRows(A, <<>>)

(* Reductions along one dimension of a matrix. *)
RMap(m, x) == IF m = "norm" THEN FMul(x, x) ELSE x
Reduce(m, dim, al, A) ==
  IF dim = 1 THEN Vec([i \in 1..NR(A) |-> <<FMul(al, FSum([j \in 1..NC(A) |-> RMap(m, A[i][j])]))>>])
  ELSE Vec([j \in 1..NC(A) |-> <<FMul(al, FSum([i \in 1..NR(A) |-> RMap(m, A[i][j])]))>>])
=============================================================================
