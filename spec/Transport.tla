------------------------------ MODULE Transport ------------------------------
(* Transport integrals: means over the cells of a grid of products of the       *)
(* slopes (velocities) and second derivatives (inverse masses) in a cell, with  *)
(* the density of the cell at a level as weight; moments of the derivative of   *)
(* the Fermi function; transport tensors; free electrons.                        *)
EXTENDS Dos
LOCAL INSTANCE FiniteSetsExt
LOCAL INSTANCE SequencesExt
I3 == 1..3
Eps == TLCEval([i \in I3 |-> [j \in I3 |-> [k \in I3 |-> IF i = j \/ j = k \/ i = k THEN 0 ELSE IF <<i, j, k>> \in {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>} THEN 1 ELSE -1]]])
(* slopes of a cell in quarters, per length of the cell *)
Slopes(s, b, p) == [i \in I3 |-> Slope8(s.bands[b], p, i) \div 2]
(* v x v, and eps_kab v_i h_ja v_b *)
Outer(v) == TLCEval([i \in I3 |-> [j \in I3 |-> v[i] * v[j]]])
Hall(v, h) == TLCEval([i \in I3 |-> [j \in I3 |-> [k \in I3 |-> SumOver(I3 \X I3, LAMBDA q: Eps[k][q[1]][q[2]] * v[i] * h[j][q[1]] * v[q[2]])]]])
(* v.h.v - v.v tr h *)
Bend(v, h) == SumOver(I3 \X I3, LAMBDA q: v[q[1]] * h[q[1]][q[2]] * v[q[2]]) - Norm2(v) * (h[1][1] + h[2][2] + h[3][3])
(* mean of f over the cells, weighted with the density; f in sixteenths *)
CellSum(s, v, f(_, _)) == LET C == CellSet(s) n == Cardinality(C) IN
    SumSeq([b \in 1..Nb(s) |-> IF CutBand(s, b, v) THEN SumOver(C, LAMBDA p: (CellD(s, b, p, v) * f(b, p)) \div (16 * n)) ELSE 0])
AnyCut(s, v) == \E b \in 1..Nb(s) : CutBand(s, b, v)
(* the derivative of the Fermi function: integral of x^n (-df/dx) = n! 2 eta(n) kT^n, kT = 2^-j *)
Moment0(n) == CASE n = 0 -> One [] n = 2 -> 328987 [] n = 4 -> 4545758 [] n = 6 -> 141919000 [] OTHER -> 0
RECURSIVE Half(_, _)
Half(x, n) == IF n = 0 THEN x ELSE Half(x \div 2, n - 1)
Moment(n, j) == IF j < 0 THEN (IF n = 0 THEN One ELSE 0) ELSE Half(Moment0(n), j * n)
Binom(n, k) == Fact(n) \div (Fact(k) * Fact(n - k))
(* integral of e^p (e - mu)^a (-df/de), mu = m / 8 *)
Power(p, a, m, j) == SumSeq([i \in 1..(p + 1) |-> LET k == i - 1 w == Pow(8, p - k) x == Binom(p, k) * Moment(k + a, j) IN (x \div w) * Pow(m, p - k) + ((x % w) * Pow(m, p - k)) \div w])
(* tensors of the coefficients, L0 with determinant +-1 *)
Peltier(L) == MMul(L[2], UInv(L[1]))
SeebeckT(L) == MMul(UInv(L[1]), L[2])
KappaT(L) == MAdd(L[3], MNeg(MMul(MMul(L[2], UInv(L[1])), L[2])))
HallR(s2, s3) == LET v == UInv(s2) IN TLCEval([i \in I3 |-> [j \in I3 |-> [k \in I3 |-> SumOver(I3 \X I3, LAMBDA q: v[q[1]][j] * s3[q[1]][q[2]][k] * v[i][q[2]])]]])
(* product of a fixed point number with another one, both below 2^31 *)
MulS(x, y) == LET a == Abs(x) s == IF (x < 0) = (y < 0) THEN 1 ELSE -1 b == Abs(y) IN s * ((a \div One) * b + ((a % One) \div 10) * (b \div 10000) + (((a % One) \div 10) * (b % 10000)) \div 10000)
(* free electrons: squares of the distances to the neighbors, k in quarters *)
FreeAll(k, nbs) == SortSeq([i \in 1..Len(nbs) |-> <<Norm2(VSub(k, VScale(4, nbs[i]))), VSub(k, VScale(4, nbs[i]))>>], LAMBDA x, y: x[1] < y[1])
=============================================================================
