-------------------------------- MODULE Reps --------------------------------
(* Representations of finite matrix groups and the symmetrization of hermitian *)
(* operators with them.  The numbers are exact: entries of representation      *)
(* matrices are pairs <<a, b>> for (a + b sqrt 3)/den, entries of operators    *)
(* are quadruples <<a, b, c, d>> for (a + b sqrt 3) + i (c + d sqrt 3).        *)
(*   group: ops (integer matrices S), inv (also contains -1 separately)        *)
(*   rep:   U (one matrix per op), den, split (number of even basis states     *)
(*          under the separate inversion; the even ones come first)            *)
EXTENDS Lib
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt

(* --- the ring Z[sqrt 3] and complex numbers over it --- *)
RAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
RMul(x, y) == <<x[1] * y[1] + 3 * x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
RMMul(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(B[1]) |->
                 FoldLeft(LAMBDA acc, k: IF A[i][k] = <<0, 0>> \/ B[k][j] = <<0, 0>> THEN acc ELSE RAdd(acc, RMul(A[i][k], B[k][j])),
                          <<0, 0>>, [k \in 1..Len(B) |-> k])])])
RScale(c, A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[i]) |-> <<c * A[i][j][1], c * A[i][j][2]>>])])
RTransp(A) == TLCEval([j \in 1..Len(A[1]) |-> TLCEval([i \in 1..Len(A) |-> A[i][j]])])
REye(n, c) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN <<c, 0>> ELSE <<0, 0>>])])
RTr(A) == FoldLeft(RAdd, <<0, 0>>, [i \in 1..Len(A) |-> A[i][i]])
RInt(M) == TLCEval([i \in 1..Len(M) |-> TLCEval([j \in 1..Len(M[i]) |-> <<M[i][j], 0>>])])
CZ == <<0, 0, 0, 0>>
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4]>>
CScale(c, x) == <<c * x[1], c * x[2], c * x[3], c * x[4]>>
CConj(x) == <<x[1], x[2], -x[3], -x[4]>>
RC(r, x) == LET p == RMul(r, <<x[1], x[2]>>) q == RMul(r, <<x[3], x[4]>>) IN <<p[1], p[2], q[1], q[2]>>
CMZero(n, m) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> CZ])])
CMAdd(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[i]) |-> CAdd(A[i][j], B[i][j])])])
CMScale(c, A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[i]) |-> CScale(c, A[i][j])])])
CMDag(A) == TLCEval([j \in 1..Len(A[1]) |-> TLCEval([i \in 1..Len(A) |-> CConj(A[i][j])])])
(* U A and A U for a real matrix U *)
RCMul(U, A) == TLCEval([i \in 1..Len(U) |-> TLCEval([j \in 1..Len(A[1]) |->
                 FoldLeft(LAMBDA acc, k: IF U[i][k] = <<0, 0>> \/ A[k][j] = CZ THEN acc ELSE CAdd(acc, RC(U[i][k], A[k][j])), CZ, [k \in 1..Len(A) |-> k])])])
CRMul(A, U) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(U[1]) |->
                 FoldLeft(LAMBDA acc, k: IF U[k][j] = <<0, 0>> \/ A[i][k] = CZ THEN acc ELSE CAdd(acc, RC(U[k][j], A[i][k])), CZ, [k \in 1..Len(U) |-> k])])])
UdMU(U1, M, U2) == CRMul(RCMul(RTransp(U1), M), U2)    \* U1^+ M U2
UMUd(U1, M, U2) == CRMul(RCMul(U1, M), RTransp(U2))    \* U1 M U2^+
(* Gaussian integers as complex numbers of the ring *)
CInt(M) == TLCEval([i \in 1..Len(M) |-> TLCEval([j \in 1..Len(M[i]) |-> <<M[i][j][1], 0, M[i][j][2], 0>>])])
(* a float f = round(1000 x) against the exact value den*x = a + b sqrt 3: within two units *)
NearQ(f, a, b, den) == Abs(f * den - 1000 * a - 1732 * b - (b \div 20)) <= 2 * den + Abs(b) \div 8 + 1
NearC(f, x, den) == NearQ(f[1], x[1], x[2], den) /\ NearQ(f[2], x[3], x[4], den)
NearM(F, X, den) == Len(F) = Len(X) /\ \A i \in 1..Len(X) : Len(F[i]) = Len(X[i]) /\ \A j \in 1..Len(X[i]) : NearC(F[i][j], X[i][j], den)

(* --- the group --- *)
SignedOps(g) == IF g.inv THEN {<<i, 1>> : i \in 1..Len(g.ops)} \cup {<<i, -1>> : i \in 1..Len(g.ops)} ELSE {<<i, 1>> : i \in 1..Len(g.ops)}
Order(g) == (IF g.inv THEN 2 ELSE 1) * Len(g.ops)
OpMat(g, x) == MScale(x[2], g.ops[x[1]])
(* the matrix of an operation with a sign: the separate inversion is diag(1 (split times), -1 ...) *)
RepMat(r, x) == IF x[2] = 1 THEN r.U[x[1]] ELSE
    TLCEval([a \in 1..Len(r.U[1]) |-> TLCEval([b \in 1..Len(r.U[1]) |-> LET u == r.U[x[1]][a][b] IN IF b <= r.split THEN u ELSE <<-u[1], -u[2]>>])])
RDim(r) == Len(r.U[1])
(* a representation: D(g) D(h) = D(g h) for all operations, unitary, identity to identity *)
Compat(g, r, x, y, z) == OpMat(g, z) = MMul(OpMat(g, x), OpMat(g, y)) =>
      RMMul(RepMat(r, x), RepMat(r, y)) = RScale(r.den, RepMat(r, z))
Plain(g) == {<<i, 1>> : i \in 1..Len(g.ops)}
IsHom(g, r) == /\ Len(r.U) = Len(g.ops)
               /\ \A i \in 1..Len(r.U) : Len(r.U[i]) = RDim(r) /\ \A a \in 1..RDim(r) : Len(r.U[i][a]) = RDim(r)
               /\ \A x, y \in Plain(g) :
                     LET p == MMul(OpMat(g, x), OpMat(g, y)) zs == {z \in SignedOps(g) : OpMat(g, z) = p} IN
                     zs # {} /\ \A z \in zs : RMMul(RepMat(r, x), RepMat(r, y)) = RScale(r.den, RepMat(r, z))
               (* the separate inversion commutes with everything *)
               /\ g.inv => \A x \in Plain(g) : \A a, b \in 1..RDim(r) : (a <= r.split) # (b <= r.split) => r.U[x[1]][a][b] = <<0, 0>>
IsRep(g, r) == /\ IsHom(g, r)
               /\ \A x \in Plain(g) : RMMul(RepMat(r, x), RTransp(RepMat(r, x))) = REye(RDim(r), r.den * r.den)
Character(r, x) == RTr(RepMat(r, x))
Occ(r) == [a \in 1..RDim(r) |-> [b \in 1..RDim(r) |-> \E i \in 1..Len(r.U) : r.U[i][a][b] # <<0, 0>>]]

(* --- operators H_r given for one of r and -r, H_-r = H_r^+ --- *)
IndexOf(nb, r) == IF \E i \in 1..Len(nb) : nb[i] = r THEN <<CHOOSE i \in 1..Len(nb) : nb[i] = r, FALSE>>
                  ELSE IF \E i \in 1..Len(nb) : nb[i] = VNeg(r) THEN <<CHOOSE i \in 1..Len(nb) : nb[i] = VNeg(r), TRUE>>
                  ELSE <<0, FALSE>>
(* orbitals: blocks of the matrices; o.pos (same units as the neighbors), o.r (rep), o.at (offset in the matrix) *)
SubMat(A, i, n, j, m) == TLCEval([a \in 1..n |-> TLCEval([b \in 1..m |-> A[i + a][j + b]])])
ImageOf(g, x, r, p1, p2) == LET d == VSub(p2, p1) IN VSub(MV(OpMat(g, x), VAdd(r, d)), d)
HermZero(nb, H) == TLCEval([i \in 1..Len(nb) |-> IF \A a \in 1..Len(nb[i]) : nb[i][a] = 0 THEN CMAdd(H[i], CMDag(H[i])) ELSE CMScale(2, H[i])])
(* the group mean, times 2 Order(g) den^2: for a block of orbitals o1, o2 at neighbor i *)
BlockMean(g, nb, H2, i, o1, o2) ==
  LET imgs == TLCEval([x \in SignedOps(g) |-> IndexOf(nb, ImageOf(g, x, nb[i], o1.pos, o2.pos))])
      n == RDim(o1.r) m == RDim(o2.r)
      term(x) == LET j == imgs[x]
                     M == IF j[2] THEN CMDag(SubMat(H2[j[1]], o2.at, m, o1.at, n)) ELSE SubMat(H2[j[1]], o1.at, n, o2.at, m)
                 IN UdMU(RepMat(o1.r, x), M, RepMat(o2.r, x))
  IN IF \E x \in SignedOps(g) : imgs[x][1] = 0 THEN CMZero(n, m)
     ELSE FoldSet(LAMBDA x, acc: CMAdd(acc, term(x)), CMZero(n, m), SignedOps(g))
(* apply one operation to a matrix at k: k in 1/4 and positions such that the phase is a power of i *)
Gi(n, x) == CASE n % 4 = 0 -> x [] n % 4 = 1 -> <<-x[3], -x[4], x[1], x[2]>> [] n % 4 = 2 -> CScale(-1, x) [] OTHER -> <<x[3], x[4], -x[1], -x[2]>>
CMPhase(n, A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[i]) |-> Gi(n, A[i][j])])])
DualK(g, x, k) == MV(Transp(UInv(OpMat(g, x))), k)
(* times den^2; q4 = 4 k . pos is an integer after dividing by unit *)
AppliedBlock(g, x, k, unit, M, o1, o2) ==
  LET n == RDim(o1.r) m == RDim(o2.r)
      ph == Dot(VSub(k, DualK(g, x, k)), VSub(o2.pos, o1.pos)) \div unit
  IN CMPhase(ph, UMUd(RepMat(o1.r, x), SubMat(M, o1.at, n, o2.at, m), RepMat(o2.r, x)))
PhaseOk(g, x, k, unit, o1, o2) == Dot(VSub(k, DualK(g, x, k)), VSub(o2.pos, o1.pos)) % unit = 0
(* the Fourier sum at k = q/4 (positions in units of 1/u, neighbors multiples of u) *)
CHK(nb, H, q, u) == FoldLeft(LAMBDA acc, i:
     IF \A a \in 1..Len(nb[i]) : nb[i][a] = 0 THEN CMAdd(acc, H[i])
     ELSE LET T == CMPhase(Dot(q, nb[i]) \div u, H[i]) IN CMAdd(acc, CMAdd(T, CMDag(T))),
     CMZero(Len(H[1]), Len(H[1])), [i \in 1..Len(nb) |-> i])

(* --- operators given for one of r and -r, where the other one follows from inversion:
       H_-r = U_I H_r U_I (the hermitian basis, in which only half of the terms are kept) --- *)
FlipMixed(r, A) == TLCEval([a \in 1..Len(A) |-> TLCEval([b \in 1..Len(A) |-> IF (a <= r.split) = (b <= r.split) THEN A[a][b] ELSE CScale(-1, A[a][b])])])
(* times Order(g) den^2; full: all neighbors present by themselves (no separate inversion) *)
PlainMean(g, r, nb, H, i) ==
  FoldSet(LAMBDA x, acc: LET im == MV(OpMat(g, x), nb[i]) j == IndexOf(nb, im)
                             M == IF j[2] THEN FlipMixed(r, H[j[1]]) ELSE H[j[1]]
                         IN CMAdd(acc, UdMU(RepMat(r, x), M, RepMat(r, x))), CMZero(RDim(r), RDim(r)), SignedOps(g))
(* the mean over the operations that leave a point where it is, times den^2 and their number *)
Little(g, p) == {x \in SignedOps(g) : MV(OpMat(g, x), p) = p}
LittleMean(g, r, p, M) == FoldSet(LAMBDA x, acc: CMAdd(acc, UMUd(RepMat(r, x), M, RepMat(r, x))), CMZero(RDim(r), RDim(r)), Little(g, p))
=============================================================================
