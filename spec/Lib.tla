-------------------------------- MODULE Lib --------------------------------
(* Exact arithmetic used by all modules: integer vectors and matrices (tuples *)
(* of tuples), Gaussian integers <<re, im>>, and folds.  TLCEval forces the   *)
(* values, because TLC's function constructors are lazy.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN Abs(a) ELSE GCD(b, a % b)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)

SumSeq(s) == FoldLeft(LAMBDA a, b: a + b, 0, s)
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc: acc + f(x), 0, S)
Range1(s) == {s[i] : i \in 1..Len(s)}
Map(s, f(_)) == TLCEval([i \in 1..Len(s) |-> f(s[i])])
AllDistinct(s) == Cardinality(Range1(s)) = Len(s)
(* the multiset of the values of a sequence *)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameMultiset(s, t) == Len(s) = Len(t) /\ \A x \in Range1(s) \cup Range1(t) : Count(s, x) = Count(t, x)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

(* --- integer vectors and matrices --- *)
Zero(n) == TLCEval([i \in 1..n |-> 0])
VAdd(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
VSub(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] - b[i]])
VNeg(a) == TLCEval([i \in 1..Len(a) |-> -a[i]])
VScale(c, a) == TLCEval([i \in 1..Len(a) |-> c * a[i]])
Dot(a, b) == SumSeq([i \in 1..Len(a) |-> a[i] * b[i]])
Norm2(a) == Dot(a, a)
VMod(a, m) == TLCEval([i \in 1..Len(a) |-> a[i] % m])
Eye(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]])
Transp(A) == TLCEval([j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]])
MV(A, v) == TLCEval([i \in 1..Len(A) |-> Dot(A[i], v)])
MMul(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(B[1]) |->
                 SumSeq([k \in 1..Len(B) |-> A[i][k] * B[k][j]])])])
MNeg(A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[1]) |-> -A[i][j]])])
MAdd(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[1]) |-> A[i][j] + B[i][j]])])
MScale(c, A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[1]) |-> c * A[i][j]])])
MTr(A) == SumSeq([i \in 1..Len(A) |-> A[i][i]])
Minor(A, r, c) == TLCEval([i \in 1..(Len(A) - 1) |-> TLCEval([j \in 1..(Len(A) - 1) |->
                    A[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]])])
RECURSIVE Det(_)
Det(A) == IF Len(A) = 1 THEN A[1][1]
          ELSE SumSeq([j \in 1..Len(A) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * Det(Minor(A, 1, j))])
(* adjugate: A * Adj(A) = Det(A) * Eye *)
Adj(A) == IF Len(A) = 1 THEN <<<<1>>>>
          ELSE TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A) |->
                 (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(A, j, i))])])
(* inverse of a matrix with determinant +-1 *)
UInv(A) == MScale(Det(A), Adj(A))
IsMat(A, n, m) == Len(A) = n /\ \A i \in 1..n : Len(A[i]) = m

(* --- Gaussian integers --- *)
GZ == <<0, 0>>
GI == <<1, 0>>
GAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
GSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
GMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
GConj(a) == <<a[1], -a[2]>>
GScale(c, a) == <<c * a[1], c * a[2]>>
(* i^n *)
IPow(n) == CASE n % 4 = 0 -> <<1, 0>> [] n % 4 = 1 -> <<0, 1>> [] n % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
GSum(s) == FoldLeft(GAdd, GZ, s)
GMat(n, m, f(_, _)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> f(i, j)])])
GMZero(n, m) == GMat(n, m, LAMBDA i, j: GZ)
GMEye(n) == GMat(n, n, LAMBDA i, j: IF i = j THEN GI ELSE GZ)
GMAdd(A, B) == GMat(Len(A), Len(A[1]), LAMBDA i, j: GAdd(A[i][j], B[i][j]))
GMSub(A, B) == GMat(Len(A), Len(A[1]), LAMBDA i, j: GSub(A[i][j], B[i][j]))
GMScale(c, A) == GMat(Len(A), Len(A[1]), LAMBDA i, j: GMul(c, A[i][j]))
GMMul(A, B) == GMat(Len(A), Len(B[1]), LAMBDA i, j:
                 <<SumSeq([k \in 1..Len(B) |-> A[i][k][1] * B[k][j][1] - A[i][k][2] * B[k][j][2]]),
                   SumSeq([k \in 1..Len(B) |-> A[i][k][1] * B[k][j][2] + A[i][k][2] * B[k][j][1]])>>)
GMDag(A) == GMat(Len(A[1]), Len(A), LAMBDA i, j: GConj(A[j][i]))
GMTr(A) == GSum([i \in 1..Len(A) |-> A[i][i]])
GHermitian(A) == A = GMDag(A)
RECURSIVE GMPow(_, _)
GMPow(A, n) == IF n = 0 THEN GMEye(Len(A)) ELSE IF n = 1 THEN A ELSE GMMul(A, GMPow(A, n - 1))
(* the power sums tr(A^1) .. tr(A^n): they determine the multiset of eigenvalues *)
RECURSIVE PowSumsAcc(_, _, _, _)
PowSumsAcc(A, P, k, n) == IF k > n THEN <<>> ELSE
   LET Q == IF k = 1 THEN A ELSE GMMul(P, A) IN <<GMTr(Q)[1]>> \o PowSumsAcc(A, Q, k + 1, n)
PowSums(A, n) == PowSumsAcc(A, A, 1, n)
GDirectSum(A, B) ==
   LET n == Len(A) m == Len(B) IN
   GMat(n + m, n + m, LAMBDA i, j: IF i <= n /\ j <= n THEN A[i][j]
                                   ELSE IF i > n /\ j > n THEN B[i - n][j - n] ELSE GZ)
(* real integer matrix -> Gaussian *)
GReal(A) == GMat(Len(A), Len(A[1]), LAMBDA i, j: <<A[i][j], 0>>)
=============================================================================
