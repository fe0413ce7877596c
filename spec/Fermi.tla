-------------------------------- MODULE Fermi --------------------------------
(* Surfaces where a band crosses the Fermi energy, on a regular grid.         *)
(* Values are integers, relative to the Fermi energy, in row-major order.     *)
(* Nodes have coordinates 0..n[i]-1.  Positions are in grid units times U.    *)
EXTENDS Lib
U == 10000
RECURSIVE FlatAt(_, _, _)
FlatAt(n, j, d) == IF d = 1 THEN j[1] ELSE FlatAt(n, j, d - 1) * n[d] + j[d]
At(vol, n, j) == vol[FlatAt(n, j, Len(n)) + 1]
RECURSIVE Tuples(_, _)
Tuples(n, d) == IF d = 0 THEN {<<>>} ELSE {Append(t, x) : t \in Tuples(n, d - 1), x \in 0..(n[d] - 1)}
Nodes(n) == TLCEval(Tuples(n, Len(n)))
Step(j, ax) == TLCEval([j EXCEPT ![ax] = @ + 1])
(* a band is part of the surface if it has values on both sides *)
Cut(vol) == (\E i \in 1..Len(vol) : vol[i] > 0) /\ (\E i \in 1..Len(vol) : vol[i] < 0)
Differ(a, b) == (a > 0 /\ b < 0) \/ (a < 0 /\ b > 0)
(* the edges of the grid with ends on different sides: <<lower node, axis>> *)
Edges(vol, n) == TLCEval({e \in Nodes(n) \X (1..Len(n)) : e[1][e[2]] < n[e[2]] - 1
                            /\ Differ(At(vol, n, e[1]), At(vol, n, Step(e[1], e[2])))})
(* p (grid units times U) is the zero of the linear interpolation on edge e *)
IsZeroOf(vol, n, e, p) == LET a == Abs(At(vol, n, e[1])) b == Abs(At(vol, n, Step(e[1], e[2]))) IN
    /\ \A i \in 1..Len(n) : i # e[2] => p[i] = U * e[1][i]
    /\ Abs((p[e[2]] - U * e[1][e[2]]) * (a + b) - U * a) <= 2 * (a + b)
(* the edge a point lies on, <<>> if it is in the interior of a cell or of a face *)
EdgeOf(n, p) == LET off == {i \in 1..Len(n) : p[i] % U # 0} IN
    IF Cardinality(off) # 1 THEN <<>> ELSE <<TLCEval([i \in 1..Len(n) |-> p[i] \div U]), CHOOSE i \in off : TRUE>>
Inside(n, p) == \A i \in 1..Len(n) : 0 <= p[i] /\ p[i] <= U * (n[i] - 1)
OneCell(ps) == \A i \in 1..Len(ps[1]) : LET c == {ps[k][i] : k \in 1..Len(ps)} IN
                 MaxOf(c) <= U * ((MinOf(c) \div U) + 1)
(* a wall of the box that contains all the points *)
OnWall(n, ps) == \E i \in 1..Len(n) : \E w \in {0, U * (n[i] - 1)} : \A k \in 1..Len(ps) : ps[k][i] = w
(* ---- a triangulated surface: vertices vs (points), faces fs (triples of 1-based indices) *)
VerticesOK(vol, n, vs) ==
    /\ \A k \in 1..Len(vs) : Inside(n, vs[k]) /\ LET e == EdgeOf(n, vs[k]) IN
          e # <<>> => e \in Edges(vol, n) /\ IsZeroOf(vol, n, e, vs[k])
    /\ {EdgeOf(n, vs[k]) : k \in 1..Len(vs)} \ {<<>>} = Edges(vol, n)
    /\ AllDistinct(vs)
FacesInRange(vs, fs) == \A k \in 1..Len(fs) : Len(fs[k]) = 3 /\ AllDistinct(fs[k]) /\ \A i \in 1..3 : fs[k][i] \in 1..Len(vs)
FacesInCells(vs, fs) == \A k \in 1..Len(fs) : OneCell([i \in 1..3 |-> vs[fs[k][i]]])
Sides(fs) == TLCEval([k \in 1..(3 * Len(fs)) |-> LET f == fs[((k - 1) \div 3) + 1] i == ((k - 1) % 3) + 1 IN <<f[i], f[(i % 3) + 1]>>])
(* no rim, except on the walls of the box; neighboring triangles have the same orientation *)
Closed(n, vs, fs) == LET s == Sides(fs) S == Range1(s) IN
    /\ Cardinality(S) = Len(s)
    /\ \A d \in S : <<d[2], d[1]>> \in S \/ OnWall(n, <<vs[d[1]], vs[d[2]]>>)
(* every vertex is used *)
NoLoose(vs, fs) == {fs[k][i] : k \in 1..Len(fs), i \in 1..3} = 1..Len(vs)
=============================================================================
