------------------------------- MODULE Orbits -------------------------------
(* What a symmetry group does to sets of points and to tensors: expansion to  *)
(* full orbits, reduction to representatives, completion of neighbor lists,   *)
(* weights, and the group mean of tensors.  Points are integer vectors in     *)
(* crystal coordinates; with a period q, they are fractions with that         *)
(* denominator.                                                               *)
EXTENDS Groups

Orbit(G, p) == {MV(g, p) : g \in G}
(* into [-1/2, 1/2) *)
Fold1(c, q) == LET m == c % q IN IF 2 * m >= q THEN m - q ELSE m
Fold(p, q) == TLCEval([i \in 1..Len(p) |-> Fold1(p[i], q)])
OrbitQ(G, p, q) == {Fold(MV(g, p), q) : g \in G}
OrbitOf(G, p, cell, q) == IF cell THEN OrbitQ(G, p, q) ELSE Orbit(G, p)
Expansion(G, pts, cell, q) == UNION {OrbitOf(G, p, cell, q) : p \in Range1(pts)}
Sources(G, pts, cell, q, x) == {i \in 1..Len(pts) : x \in OrbitOf(G, pts[i], cell, q)}
Stab(G, p) == {g \in G : MV(g, p) = p}
StabQ(G, p, q) == {g \in G : VMod(MV(g, p), q) = VMod(p, q)}
(* the order in which the points of a grid can be reshaped: last coordinate first *)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i = 0 THEN FALSE ELSE a[i] < b[i] \/ (a[i] = b[i] /\ LexLess(a, b, i - 1))
GridSorted(s) == \A i \in 1..(Len(s) - 1) : LexLess(s[i], s[i + 1], Len(s[i]))

(* squared length with the metric of the lattice *)
Len2(p, gram) == Dot(p, MV(gram, p))
(* real space belongs to the transposed operations; in the coordinates of an orthogonal *)
(* group's own lattice the transposed operations are the inverse ones                   *)
Real(G, cart) == IF cart THEN G ELSE {Transp(g) : g \in G}
PM(S) == S \cup {VNeg(p) : p \in S}
CompleteOrbit(R, pts) == PM(UNION {Orbit(R, p) : p \in Range1(pts)})
FitsNeighbors(R, pts) == \A p \in Range1(pts) : Orbit(R, p) \subseteq PM(Range1(pts))

(* ------------------------------------------------ tensors ----------------- *)
(* a tensor of rank r in dimension d is a flat sequence of d^r values, last index fastest *)
Digit(x, pos, d, r) == ((x \div Pow(d, r - pos)) % d) + 1     \* pos = 1 is the slowest index
Replace(x, pos, v, d, r) == x + (v - Digit(x, pos, d, r)) * Pow(d, r - pos)
(* contract M[out, in] on index pos *)
OnIndex(M, T, pos, d, r) ==
    TLCEval([x \in 1..Len(T) |-> SumSeq([v \in 1..d |-> M[Digit(x - 1, pos, d, r)][v] * T[Replace(x - 1, pos, v, d, r) + 1]])])
RECURSIVE ActFrom(_, _, _, _, _, _)
ActFrom(g, gi, T, pos, d, rk) ==
    IF pos > rk[1] + rk[2] THEN T
    ELSE ActFrom(g, gi, OnIndex(IF pos <= rk[1] THEN gi ELSE Transp(g), T, pos, d, rk[1] + rk[2]), pos + 1, d, rk)
Act(g, T, d, rk, pseudo) == LET R == ActFrom(g, UInv(g), T, 1, d, rk) IN
    IF pseudo /\ Det(g) < 0 THEN VNeg(R) ELSE R
RECURSIVE SumActs(_, _, _, _, _)
SumActs(gs, T, d, rk, pseudo) == IF gs = {} THEN Zero(Len(T)) ELSE
    LET g == CHOOSE x \in gs : TRUE IN VAdd(Act(g, T, d, rk, pseudo), SumActs(gs \ {g}, T, d, rk, pseudo))
(* |G| times the group mean *)
MeanTimesOrder(G, T, d, rk, pseudo) == SumActs(G, T, d, rk, pseudo)
=============================================================================
