------------------------------ MODULE KernelsMC ------------------------------
(* Conjugate gradients as a state machine over rational numbers: for every    *)
(* positive definite system it ends after at most as many steps as unknowns,  *)
(* with the exact solution.  And the laws of the other kernels.               *)
EXTENDS Kernels
VARIABLES A, b, x, r, d, i
vars == <<A, b, x, r, d, i>>
(* rationals <<numerator, denominator > 0>>, reduced *)
Q(n, m) == LET g == GCD(Abs(n), Abs(m)) s == IF m < 0 THEN -1 ELSE 1 IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (m \div g)>>
QAdd(p, q) == LET g == GCD(p[2], q[2]) IN Q(p[1] * (q[2] \div g) + q[1] * (p[2] \div g), p[2] * (q[2] \div g))
QMul(p, q) == LET u == Q(p[1], q[2]) v == Q(q[1], p[2]) IN Q(u[1] * v[1], u[2] * v[2])
QNeg(p) == <<-p[1], p[2]>>
QInv(p) == Q(p[2], p[1])
VV(u, v) == QAdd(QMul(u[1], v[1]), QMul(u[2], v[2]))
AV(v) == TLCEval([k \in 1..2 |-> QAdd(QMul(Q(A[k][1], 1), v[1]), QMul(Q(A[k][2], 1), v[2]))])
Plus(u, a, v) == TLCEval([k \in 1..2 |-> QAdd(u[k], QMul(a, v[k]))])
Init == /\ A \in {<<<<p, o>>, <<o, q>>>> : p \in 1..3, q \in 1..3, o \in -1..1} /\ Det(A) > 0
        /\ b \in {<<p, q>> : p \in -2..1, q \in -1..2}
        /\ x = [k \in 1..2 |-> Q(0, 1)] /\ r = [k \in 1..2 |-> Q(-b[k], 1)]
        /\ d = r /\ i = 0
Done == VV(r, r)[1] = 0
Step == /\ ~Done
        /\ LET al == QMul(VV(r, r), QInv(VV(d, AV(d)))) r1 == Plus(r, QNeg(al), AV(d)) IN
           /\ x' = Plus(x, QNeg(al), d) /\ r' = r1
           /\ d' = Plus(r1, QMul(VV(r1, r1), QInv(VV(r, r))), d)
        /\ i' = i + 1 /\ UNCHANGED <<A, b>>
Next == Step
Terminates == i <= 2 /\ (i = 2 => Done)
Residual == \A k \in 1..2 : r[k] = QAdd(AV(x)[k], Q(-b[k], 1))
Solved == Done => \A k \in 1..2 : AV(x)[k] = Q(b[k], 1)
(* ---- perturbation theory agrees with the derivatives of tr H^2: the second derivative is 2 sum (g^2 + D h) = 2 tr (dH^2 + D ddH) *)
Herm2(p, q, u, v) == <<<<<<p, 0>>, <<u, v>>>>, <<<<u, -v>>, <<q, 0>>>>>>
Hs == {Herm2(p, q, u, v) : p \in {-1, 2}, q \in {0, 1}, u \in {-1, 0, 2}, v \in {0, 1}}
Vs == {<<1, GMEye(2)>>, <<2, <<<<<<1, 0>>, <<0, 1>>>>, <<<<0, 1>>, <<1, 0>>>>>>>>}
ASSUME \A D \in {<<-1, 1>>, <<0, 1>>, <<3, 1>>} : \A v \in Vs : \A P \in Hs : \A R \in {Herm2(1, 2, 0, 1), Herm2(0, 0, 1, 0)} :
   LET c == v[1] p == InBasis(v[2], P) w == InBasis(v[2], R)
       g(k) == First(v[2], D, P, GMZero(2, 2), k)
       h(k) == Over(Second(c, D, p, p, w, k), Gap(D, k))
   IN /\ SumOver({1, 2}, LAMBDA k: g(k)) = GMTr(p)[1]
      /\ SumOver({1, 2}, LAMBDA k: h(k)) = c * GMTr(w)[1]
      /\ SumOver({1, 2}, LAMBDA k: g(k) * g(k) + D[k] * h(k)) = GMTr(GMMul(p, p))[1] + c * SumOver({1, 2}, LAMBDA k: D[k] * w[k][k][1])
(* ---- products: mixed product rule and traces *)
Ms == {Herm2(1, 2, 0, 1), Herm2(0, -1, 1, 1), GMEye(2)}
ASSUME \A P \in Ms, S \in Ms, T \in Ms : /\ GMMul(KronG(P, S), KronG(S, T)) = KronG(GMMul(P, S), GMMul(S, T))
                                          /\ KronG(KronG(P, S), T) = KronG(P, KronG(S, T))
                                          /\ GMMul(DirectG(P, S), DirectG(S, T)) = DirectG(GMMul(P, S), GMMul(S, T))
(* ---- the ball contains the inverse of every point, and the lattice of twice the basis is a sublattice *)
ASSUME \A L \in {<<<<1, 0>>, <<0, 2>>>>, <<<<2, 1>>, <<-1, 1>>>>} : LET B == Ball(L, 3, 1050) IN
    /\ \A v \in B : VNeg(v) \in B
    /\ Ball(MScale(2, L), 3, 1050) = {v \in B : \E w \in B : v = VScale(2, w)}
=============================================================================
