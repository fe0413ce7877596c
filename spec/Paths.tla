-------------------------------- MODULE Paths --------------------------------
(* Paths through k-space and interpolation of band data.                      *)
(* A path is a sequence of points, the indices of its waypoints and one name  *)
(* per waypoint.  Points are integer vectors; the segment towards a waypoint  *)
(* with n steps is kept in units that make all of its points integers.        *)
EXTENDS Lib

(* the j-th of n points from a (excluded, j=0) to b (included, j=n), times n *)
SegPoint(a, b, j, n) == VAdd(VScale(n - j, a), VScale(j, b))
(* the indices of the waypoints: the start is 0, each segment adds its steps *)
RECURSIVE Stops(_, _)
Stops(at, segs) == IF segs = <<>> THEN <<at>> ELSE <<at>> \o Stops(at + Head(segs), Tail(segs))
Total(segs) == 1 + SumSeq(segs)
(* which segment (1..) does point i (0 based, i >= 1) belong to, and at which step *)
SegOf(segs, i) == CHOOSE s \in 1..Len(segs) : SumSeq(SubSeq(segs, 1, s - 1)) < i /\ i <= SumSeq(SubSeq(segs, 1, s))
StepOf(segs, i) == i - SumSeq(SubSeq(segs, 1, SegOf(segs, i) - 1))
(* point i of the path through the waypoints, times the number of steps of its segment *)
PathPoint(wps, segs, i) == LET s == SegOf(segs, i) IN SegPoint(wps[s], wps[s + 1], StepOf(segs, i), segs[s])
(* squared length of one step of segment s, times segs[s]^2 *)
StepLen2(wps, s) == Norm2(VSub(wps[s + 1], wps[s]))

(* ---- data on a periodic grid of n[1] x n[2] x .. nodes; node coordinates are doubled (2j + off), modulo 2n *)
ModN(K, n) == TLCEval([i \in 1..Len(K) |-> K[i] % (2 * n[i])])
IsImage(ops, inv, p, K, n) == \E o \in 1..Len(ops) : LET x == MV(ops[o], p) IN ModN(x, n) = K \/ (inv /\ ModN(VNeg(x), n) = K)
(* the table of node values that the given points determine *)
Nodes(n, off) == {K \in [1..Len(n) -> 0..(2 * MaxOf(Range1(n)) - 1)] : \A i \in 1..Len(n) : K[i] < 2 * n[i] /\ K[i] % 2 = off[i] % 2}
Table(ops, inv, pts, vals, n, off) == TLCEval([K \in Nodes(n, off) |-> vals[CHOOSE i \in 1..Len(pts) : IsImage(ops, inv, pts[i], K, n)]])
Complete(ops, inv, pts, n, off) == \A K \in Nodes(n, off) : \E i \in 1..Len(pts) : IsImage(ops, inv, pts[i], K, n)
(* multilinear interpolation at quarter steps: u[i] = 4 j + r; the result is multiplied by 4^d *)
RECURSIVE Corners(_)
Corners(d) == IF d = 0 THEN {<<>>} ELSE {Append(c, b) : c \in Corners(d - 1), b \in {0, 1}}
Weight(u, c) == LET w == [i \in 1..Len(u) |-> IF c[i] = 1 THEN u[i] % 4 ELSE 4 - (u[i] % 4)] IN
                IF Len(u) = 1 THEN w[1] ELSE IF Len(u) = 2 THEN w[1] * w[2] ELSE w[1] * w[2] * w[3]
MultiLin(f(_), u) == SumOver(Corners(Len(u)), LAMBDA c: LET w == Weight(u, c) IN
                       IF w = 0 THEN 0 ELSE w * f(TLCEval([i \in 1..Len(u) |-> (u[i] \div 4) + c[i]])))
PeriodicAt(tab, n, off, u, b) == MultiLin(LAMBDA j: tab[ModN(TLCEval([i \in 1..Len(j) |-> 2 * j[i] + off[i]]), n)][b], u)
(* a finite grid: values in row-major order, index coordinates 0..n-1 *)
Flat(n, j) == IF Len(n) = 1 THEN j[1] + 1 ELSE IF Len(n) = 2 THEN j[1] * n[2] + j[2] + 1 ELSE (j[1] * n[2] + j[2]) * n[3] + j[3] + 1
OpenAt(vals, n, u, b) == MultiLin(LAMBDA j: vals[Flat(n, j)][b], u)

(* ---- special points of the Brillouin zone, coordinates and lattice in fixed point *)
Dist2(a, b) == Norm2(VSub(a, b))
(* at least m lattice points besides the origin are as close as the origin, none is closer *)
OnBoundary(p, gs, m, tol) == /\ \A i \in 1..Len(gs) : Dist2(p, gs[i]) >= Norm2(p) - tol
                             /\ Cardinality({i \in 1..Len(gs) : Abs(Dist2(p, gs[i]) - Norm2(p)) <= tol}) >= m
Halves(p, gs, tol) == \E i \in 1..Len(gs) : Norm2(VSub(VScale(2, p), gs[i])) <= tol
SpecialPoint(p, gs, tol) == OnBoundary(p, gs, 2, tol) \/ (OnBoundary(p, gs, 1, tol) /\ Halves(p, gs, tol))
=============================================================================
