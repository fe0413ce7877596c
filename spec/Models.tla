------------------------------- MODULE Models -------------------------------
(* Tight-binding models as data: a list of neighbors (integer vectors) with a *)
(* Gaussian integer matrix for each of them.  The first neighbor is 0, all    *)
(* others stand for themselves and their mirror image (with the adjoint):     *)
(*    H(k) = H_0 + sum_{i>0} ( H_i e^{2 pi i k.r_i} + h.c. )                  *)
(* k is given as k = q/4 with integer q, so that e^{2 pi i k.r} = i^(q.r).    *)
EXTENDS Lib
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt

GSMat(z, A) == GMScale(z, A)
IMat(c, A) == GMScale(<<c, 0>>, A)
GIm == <<0, 1>>
Bands(m) == Len(m.H[1])
Dim(m) == Len(m.nb[1])
ZeroMat(n) == GMat(n, n, LAMBDA i, j: GZ)
Upto(a, n) == [i \in 1..(n - a + 1) |-> i + a - 1]
FoldMat(f(_), a, n, start) == FoldLeft(LAMBDA acc, i: GMAdd(acc, f(i)), start, Upto(a, n))
HalfSum(m, f(_)) == FoldMat(f, 2, Len(m.nb), ZeroMat(Bands(m)))
PlusDag(A) == GMAdd(A, GMDag(A))
(* the matrix, its first and second derivative (without the factors 2 pi and (2 pi)^2) *)
HK(m, q) == LET T == HalfSum(m, LAMBDA i: GSMat(IPow(Dot(q, m.nb[i])), m.H[i])) IN GMAdd(PlusDag(T), m.H[1])
DHK(m, q, a) == PlusDag(HalfSum(m, LAMBDA i: GSMat(GScale(m.nb[i][a], IPow(Dot(q, m.nb[i]) + 1)), m.H[i])))
DDHK(m, q, a, c) == PlusDag(HalfSum(m, LAMBDA i: GSMat(GScale(-(m.nb[i][a] * m.nb[i][c]), IPow(Dot(q, m.nb[i]))), m.H[i])))
(* at a general k the phases come from a table: ph[i] = <<cos, sin>> in fixed point *)
HTab(m, ph, f) == LET T == HalfSum(m, LAMBDA i: GSMat(ph[i], m.H[i])) IN GMAdd(PlusDag(T), IMat(f, m.H[1]))
DHTab(m, ph, a) == PlusDag(HalfSum(m, LAMBDA i: GSMat(GScale(m.nb[i][a], GMul(GIm, ph[i])), m.H[i])))
DDHTab(m, ph, a, c) == PlusDag(HalfSum(m, LAMBDA i: GSMat(GScale(-(m.nb[i][a] * m.nb[i][c]), ph[i]), m.H[i])))
Near(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) :
                      Abs(A[i][j][1] - B[i][j][1]) <= tol /\ Abs(A[i][j][2] - B[i][j][2]) <= tol
IsHermitian(A) == GHermitian(A)

(* ---------------------------------------------------- bands --------------- *)
(* sum_b E_b(k)^j, j = 1..n: determines the bands *)
BandSums(m, q) == PowSums(HK(m, q), Bands(m))
(* d/dk_a of sum_b E_b^j, divided by 2 pi j:  sum_b E_b^(j-1) dE_b = tr(H^(j-1) dH) *)
GradSums(m, q, a) == LET H == HK(m, q) D == DHK(m, q, a) IN
    TLCEval([j \in 1..Bands(m) |-> GMTr(IF j = 1 THEN D ELSE GMMul(GMPow(H, j - 1), D))[1]])
(* d/dk_c of tr(H^(j-1) d_a H), divided by (2 pi)^2:
   = sum_b E_b^(j-1) d_a d_c E_b + (j-1) E_b^(j-2) d_a E_b d_c E_b *)
RECURSIVE Mixed(_, _, _, _, _)
Mixed(H, Da, Dc, p, i) == IF i > p THEN 0 ELSE    \* sum_i tr(H^i Dc H^(p-i) Da)
    GMTr(GMMul(GMMul(GMPow(H, i), Dc), GMMul(GMPow(H, p - i), Da)))[1] + Mixed(H, Da, Dc, p, i + 1)
HessSums(m, q, a, c) == LET H == HK(m, q) Da == DHK(m, q, a) Dc == DHK(m, q, c) DD == DDHK(m, q, a, c) IN
    TLCEval([j \in 1..Bands(m) |-> (IF j = 1 THEN GMTr(DD)[1] ELSE GMTr(GMMul(GMPow(H, j - 1), DD))[1] + Mixed(H, Da, Dc, j - 2, 0))])

(* ------------------------------- generalized problem det(H - E S) = 0 ----- *)
GDet(A) == IF Len(A) = 1 THEN A[1][1] ELSE   \* only needed up to 2x2
    GSub(GMul(A[1][1], A[2][2]), GMul(A[1][2], A[2][1]))
GAdj(A) == IF Len(A) = 1 THEN <<<<GI>>>> ELSE
    <<<<A[2][2], GScale(-1, A[1][2])>>, <<GScale(-1, A[2][1]), A[1][1]>>>>
(* sum_b (det(S) E_b)^j *)
GenBandSums(m, s, q) == PowSums(GMMul(GAdj(HK(s, q)), HK(m, q)), Bands(m))
SDet(s, q) == GDet(HK(s, q))[1]
(* det(S)^(j+1) sum_b E_b^(j-1) dE_b *)
GenGradSums(m, s, q, a) ==
  LET S == HK(s, q) d == GDet(S)[1] adj == GAdj(S) B == GMMul(adj, HK(m, q))
      D == GMMul(adj, GMSub(IMat(d, DHK(m, q, a)), GMMul(DHK(s, q, a), B))) IN
  TLCEval([j \in 1..Bands(m) |-> GMTr(IF j = 1 THEN D ELSE GMMul(GMPow(B, j - 1), D))[1]])

(* d_a d_c of sum_b E_b^j = tr(M^j) / det(S)^j with M = adj(S) H, times det(S)^(j+2) / j, over (2 pi)^2:                *)
(*   det(S)^(j+2) sum_b ( E_b^(j-1) d_a d_c E_b + (j-1) E_b^(j-2) d_a E_b d_c E_b );  adj is linear up to 2x2            *)
GAdj1(A) == IF Len(A) = 1 THEN ZeroMat(1) ELSE GAdj(A)
GenHessSums(m, s, q, a, c) ==
  LET H == HK(m, q) Ha == DHK(m, q, a) Hc == DHK(m, q, c) Hac == DDHK(m, q, a, c)
      S == HK(s, q) Sa == DHK(s, q, a) Sc == DHK(s, q, c) Sac == DDHK(s, q, a, c)
      D == GDet(S)[1]
      Da == GMTr(GMMul(GAdj(S), Sa))[1]  Dc == GMTr(GMMul(GAdj(S), Sc))[1]
      Dac == GMTr(GMMul(GAdj1(Sc), Sa))[1] + GMTr(GMMul(GAdj(S), Sac))[1]
      B == GMMul(GAdj(S), H)
      Ba == GMAdd(GMMul(GAdj1(Sa), H), GMMul(GAdj(S), Ha))
      Bc == GMAdd(GMMul(GAdj1(Sc), H), GMMul(GAdj(S), Hc))
      Bac == GMAdd(GMAdd(GMMul(GAdj1(Sac), H), GMMul(GAdj1(Sa), Hc)), GMAdd(GMMul(GAdj1(Sc), Ha), GMMul(GAdj(S), Hac)))
      P(j) == GMTr(IF j = 1 THEN B ELSE GMMul(B, B))[1]
      Pa(j) == GMTr(IF j = 1 THEN Ba ELSE GMMul(B, Ba))[1]     \* divided by j
      Pc(j) == GMTr(IF j = 1 THEN Bc ELSE GMMul(B, Bc))[1]
      Pac(j) == IF j = 1 THEN GMTr(Bac)[1] ELSE GMTr(GMMul(Bc, Ba))[1] + GMTr(GMMul(B, Bac))[1]
  IN TLCEval([j \in 1..Bands(m) |-> D * D * Pac(j) - j * D * (Pa(j) * Dc + Pc(j) * Da) - P(j) * D * Dac + (j + 1) * P(j) * Da * Dc])

(* --------------------------------------------- editing -------------------- *)
MkModel(nb, H) == [nb |-> nb, H |-> H]
Keep(m, idx) == MkModel(TLCEval([i \in 1..Len(idx) |-> m.nb[idx[i]]]), TLCEval([i \in 1..Len(idx) |-> m.H[idx[i]]]))
Sel(a, n, p(_)) == SelectSeq(Upto(a, n), p)
(* squared norm of a coefficient matrix *)
GNorm2(A) == SumSeq([i \in 1..Len(A) |-> SumSeq([j \in 1..Len(A[i]) |-> A[i][j][1] * A[i][j][1] + A[i][j][2] * A[i][j][2]])])
AddNeighbors(m, new) == MkModel(m.nb \o new, m.H \o [i \in 1..Len(new) |-> ZeroMat(Bands(m))])
(* the neighbors up to a length, given squared *)
LimitLength(m, l2) == Keep(m, Sel(1, Len(m.nb), LAMBDA i: Norm2(m.nb[i]) <= l2))
Cleanup(m, n2) == Keep(m, Sel(1, Len(m.nb), LAMBDA i: i = 1 \/ GNorm2(m.H[i]) >= n2))
Permute(m, ord) == MkModel(m.nb, Map(m.H, LAMBDA A: GMat(Len(A), Len(A), LAMBDA i, j: A[ord[i]][ord[j]])))
Transform(m, B) == MkModel(Map(m.nb, LAMBDA r: MV(B, r)), m.H)
ScaleBy(m, f) == MkModel(m.nb, Map(m.H, LAMBDA A: IMat(f, A)))
Shift(m, x) == MkModel(m.nb, TLCEval([i \in 1..Len(m.H) |-> IF i = 1 THEN GMAdd(m.H[1], IMat(x, GMEye(Bands(m)))) ELSE m.H[i]]))
DirectSum(a, b) == MkModel(a.nb, TLCEval([i \in 1..Len(a.H) |-> GDirectSum(a.H[i], b.H[i])]))
(* two lists describe the same model: same matrix at every neighbor, mirror images counted *)
SumAt(m, r) == LET A == FoldMat(LAMBDA i: IF m.nb[i] = r THEN m.H[i] ELSE ZeroMat(Bands(m)), 1, Len(m.nb), ZeroMat(Bands(m)))
                   B == FoldMat(LAMBDA i: IF m.nb[i] = VNeg(r) THEN GMDag(m.H[i]) ELSE ZeroMat(Bands(m)), 2, Len(m.nb), ZeroMat(Bands(m)))
               IN GMAdd(A, B)
SupportOf(m) == Range1(m.nb) \cup {VNeg(r) : r \in Range1(m.nb)}
SameModel(a, b) == Bands(a) = Bands(b) /\ \A r \in SupportOf(a) \cup SupportOf(b) : SumAt(a, r) = SumAt(b, r)
(* expansion of a coefficient symmetric model: H_i stands for all images of its neighbor *)
FlatMap(f(_), s) == FoldLeft(LAMBDA acc, x: acc \o f(x), <<>>, s)
Expand(m, ops) == LET idx == FlatMap(LAMBDA i: IF i = 1 THEN <<<<1, 1>>>> ELSE [g \in 1..Len(ops) |-> <<i, g>>], [i \in 1..Len(m.nb) |-> i]) IN
    MkModel(TLCEval([x \in 1..Len(idx) |-> MV(ops[idx[x][2]], m.nb[idx[x][1]])]),
            TLCEval([x \in 1..Len(idx) |-> m.H[idx[x][1]]]))

(* --------------------------------------------- supercells ----------------- *)
(* The bands of the supercell A L at k are the bands of the cell A at k + g,  *)
(* g in the reciprocal lattice of A L modulo that of A.  With the Fourier     *)
(* coefficients c_R of tr H(k)^j this is |det L| sum over R in L Z^d of       *)
(* c_R e^{2 pi i k R}.                                                        *)
InLattice(L, r) == LET d == Det(L) a == MV(Adj(L), r) IN \A i \in 1..Len(r) : a[i] % Abs(d) = 0
Series(m) == TLCEval([r \in SupportOf(m) |-> SumAt(m, r)])
FoldSetMat(f(_), S, start) == FoldSet(LAMBDA x, acc: GMAdd(acc, f(x)), start, S)
SeriesMul(X, Y) ==
  LET D == {VAdd(a, b) : a \in DOMAIN X, b \in DOMAIN Y}
      n == Len(X[CHOOSE a \in DOMAIN X : TRUE]) IN
  TLCEval([r \in D |-> FoldSetMat(LAMBDA a: IF VSub(r, a) \in DOMAIN Y THEN GMMul(X[a], Y[VSub(r, a)]) ELSE ZeroMat(n), DOMAIN X, ZeroMat(n))])
FoldedSum(P, L, q) == Abs(Det(L)) * SumOver({r \in DOMAIN P : InLattice(L, r)}, LAMBDA r: GMul(IPow(Dot(q, r)), GMTr(P[r]))[1])
RECURSIVE FoldedAcc(_, _, _, _, _, _)
FoldedAcc(X, P, L, qs, j, n) == IF j > n THEN <<>> ELSE
   LET Q == IF j = 1 THEN X ELSE SeriesMul(X, P) IN
   <<TLCEval([i \in 1..Len(qs) |-> FoldedSum(Q, L, qs[i])])>> \o FoldedAcc(X, Q, L, qs, j + 1, n)
(* power sums j = 1..n for all qs: Folded[j][i] *)
Folded(m, L, qs, n) == LET X == Series(m) IN FoldedAcc(X, X, L, qs, 1, n)
=============================================================================
