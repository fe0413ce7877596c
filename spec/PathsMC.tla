------------------------------- MODULE PathsMC -------------------------------
(* Paths as a state machine: start somewhere, append waypoints (or have them  *)
(* refused), and the laws of interpolation on small periodic grids.           *)
EXTENDS Paths
CONSTANTS D, MaxWp
VARIABLES wps, segs, pts, idx, names
vars == <<wps, segs, pts, idx, names>>
W == IF D = 1 THEN {<<a>> : a \in {-6, 0, 12}} ELSE {<<a, b>> : a, b \in {0, 6}}
Init == /\ \E w \in W : wps = <<w>> /\ pts = <<w>>
        /\ segs = <<>> /\ idx = <<0>> /\ names = <<"s">>
Add(w, n) == /\ wps' = Append(wps, w)
             /\ segs' = Append(segs, n)
             /\ pts' = pts \o [j \in 1..n |-> [i \in 1..D |-> SegPoint(wps[Len(wps)], w, j, n)[i] \div n]]
             /\ idx' = Append(idx, Len(pts) + n - 1)
             /\ names' = Append(names, "n")
Refuse == UNCHANGED vars
Next == (Len(wps) < MaxWp /\ \E w \in W, n \in {1, 2, 3} : Add(w, n)) \/ Refuse
(* what an observer can compute from waypoints and steps alone *)
Bookkeeping == /\ Len(pts) = Total(segs)
               /\ idx = Stops(0, segs)
               /\ Len(names) = Len(idx)
               /\ \A i \in 1..Len(wps) : pts[idx[i] + 1] = wps[i]
               /\ \A i \in 1..(Len(pts) - 1) : VScale(segs[SegOf(segs, i)], pts[i + 1]) = PathPoint(wps, segs, i)
EqualSteps == \A i \in 1..(Len(pts) - 1) : LET s == SegOf(segs, i) IN
                 segs[s] * segs[s] * Norm2(VSub(pts[i + 1], pts[i])) = StepLen2(wps, s)
(* interpolation: nodes are reproduced, the period is respected, values stay between the nodes' values *)
F1 == [K \in Nodes(<<3>>, <<0>>) |-> <<(K[1] * 5) % 7>>]
ASSUME \A u \in 0..12 : /\ PeriodicAt(F1, <<3>>, <<0>>, <<u>>, 1) = PeriodicAt(F1, <<3>>, <<0>>, <<u + 12>>, 1)
                        /\ u % 4 = 0 => PeriodicAt(F1, <<3>>, <<0>>, <<u>>, 1) = 4 * F1[<<(u \div 2) % 6>>][1]
                        /\ PeriodicAt(F1, <<3>>, <<0>>, <<u>>, 1) <= 4 * 6
ASSUME \A u, v \in 0..8 : MultiLin(LAMBDA j: 3 * j[1] - 2 * j[2] + j[1] * j[2], <<u, v>>) = 12 * u - 8 * v + u * v
=============================================================================
