------------------------------- MODULE Kernels -------------------------------
(* The linear algebra below the models: sums and products of matrices,        *)
(* eigenvalues under perturbations, positive definite systems, lattice points *)
(* in a sphere, matching of point clouds, quadrature.                         *)
(* Matrices are Gaussian integers.                                            *)
EXTENDS Lib
KronG(A, B) == GMat(Len(A) * Len(B), Len(A[1]) * Len(B[1]), LAMBDA i, j:
    GMul(A[((i - 1) \div Len(B)) + 1][((j - 1) \div Len(B[1])) + 1], B[((i - 1) % Len(B)) + 1][((j - 1) % Len(B[1])) + 1]))
DirectG(A, B) == GMat(Len(A) + Len(B), Len(A[1]) + Len(B[1]), LAMBDA i, j:
    IF i <= Len(A) /\ j <= Len(A[1]) THEN A[i][j] ELSE IF i > Len(A) /\ j > Len(A[1]) THEN B[i - Len(A)][j - Len(A[1])] ELSE GZ)
RECURSIVE FoldG(_, _)
FoldG(kind, s) == IF Len(s) = 1 THEN s[1] ELSE FoldG(kind, <<IF kind = "kron" THEN KronG(s[1], s[2]) ELSE DirectG(s[1], s[2])>> \o SubSeq(s, 3, Len(s)))

(* ---- eigenvalues: the columns of V are eigenvectors of H with overlap S, V' S V = c and V' H V = c D *)
Diag(D, c) == GMat(Len(D), Len(D), LAMBDA i, j: IF i = j THEN <<c * D[i], 0>> ELSE GZ)
IsEigen(H, S, V, c, D) == GMMul(GMMul(GMDag(V), S), V) = Diag([i \in 1..Len(D) |-> 1], c)
                          /\ GMMul(GMMul(GMDag(V), H), V) = Diag(D, c)
InBasis(V, M) == GMMul(GMMul(GMDag(V), M), V)
(* first derivative of eigenvalue i, times c *)
First(V, D, dH, dS, i) == InBasis(V, dH)[i][i][1] - D[i] * InBasis(V, dS)[i][i][1]
Same(D, i) == {j \in 1..Len(D) : D[j] = D[i]}
(* the product of the distances to the other eigenvalues *)
RECURSIVE Prod(_, _, _)
Prod(D, x, j) == IF j = 0 THEN 1 ELSE (IF D[j] = x THEN 1 ELSE x - D[j]) * Prod(D, x, j - 1)
Gap(D, i) == Prod(D, D[i], Len(D))
(* exact division *)
Over(a, n) == (Sgn(n) * a) \div Abs(n)
(* second derivative of eigenvalue i (of the mean of its degenerate set: summed over the set) along p, q, times c^2 Gap; P, Q, R = dH_p, dH_q, ddH_pq in the basis V *)
Second(c, D, P, Q, R, i) == c * Gap(D, i) * R[i][i][1] + 2 * SumOver({j \in 1..Len(D) : D[j] # D[i]}, LAMBDA j: GMul(P[i][j], Q[j][i])[1] * Over(Gap(D, i), D[i] - D[j]))

(* ---- lattice points (columns of A are the basis) strictly inside of radius r, r2 = r^2 times 100 *)
Box(d, m) == IF d = 1 THEN {<<x>> : x \in -m..m} ELSE IF d = 2 THEN {<<x, y>> : x, y \in -m..m} ELSE {<<x, y, z>> : x, y, z \in -m..m}
InLattice(A, x) == LET d == Det(A) y == MV(Adj(A), x) IN \A i \in 1..Len(y) : y[i] % Abs(d) = 0
Ball(A, m, r2) == {x \in Box(Len(A), m) : 100 * Norm2(x) < r2 /\ InLattice(A, x)}

(* ---- moments of -df/dx, f = 1/(1+e^x), and of 1/(1+e^|x|) / (2 ln 2), divided by Unit(j) and times 10^6 *)
Unit(j) == <<1, 1, 3, 10, 45, 300, 1419, 10000, 80336, 1000000>>[j + 1]
\* (2^j - 2) pi^j |B_j|
MomentD(j) == <<1000000, 0, 1096623, 0, 1010168, 0, 1000136, 0, 1000003, 0>>[j + 1]
\* (1 - 2^-j) j! zeta(j+1) / ln 2 divided by the unit
MomentF(j) == <<1000000, 0, 867101, 0, 747985, 0, 726601, 0, 722697, 0>>[j + 1]
Mean(a, mom(_)) == SumSeq([j \in 1..Len(a) |-> a[j] * mom(j - 1)])

(* ---- a matching of point clouds on a line costs at least as much as the sorted one *)
RECURSIVE SortInts(_)
SortInts(s) == IF s = <<>> THEN <<>> ELSE LET m == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : s[i] <= s[j] IN
                 <<s[m]>> \o SortInts(SubSeq(s, 1, m - 1) \o SubSeq(s, m + 1, Len(s)))
SortedCost(s, t) == LET a == SortInts(s) b == SortInts(t) IN SumSeq([i \in 1..Len(a) |-> Abs(a[i] - b[i])])
=============================================================================
