------------------------------ MODULE OrbitsMC ------------------------------
(* Exhaustive model check: point sets that are expanded, reduced and          *)
(* completed one step at a time under every group of a pool.                  *)
EXTENDS Orbits
CONSTANTS D, Q
VARIABLES G, pts, todo, reps
vars == <<G, pts, todo, reps>>
Gens == IF D = 2 THEN {{}, {MNeg(Eye(2))}, {MirX(2)}, {<<<<0, 1>>, <<-1, 0>>>>}, {<<<<0, 1>>, <<-1, 0>>>>, MirX(2)},
                       {<<<<0, -1>>, <<1, -1>>>>}, {<<<<1, -1>>, <<1, 0>>>>}}
        ELSE {{}, {MNeg(Eye(3))}, {Rot4}, {<<<<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>>>>, Rot4}}
Groups1 == {Closure(g, D) : g \in Gens}
Points == IF D = 2 THEN {<<a, b>> : a, b \in 0..(Q - 1)} ELSE {<<a, b, c>> : a, b, c \in 0..(Q - 1)}
Folded == {Fold(p, Q) : p \in Points}
(* reduction, one point at a time: keep it as a representative, drop its orbit *)
Init == /\ G \in Groups1
        /\ pts \in {S \in SUBSET Folded : Cardinality(S) <= 3 /\ S # {}}
        /\ todo = UNION {OrbitQ(G, p, Q) : p \in pts}
        /\ reps = {}
Next == /\ todo # {}
        /\ \E p \in todo : /\ reps' = reps \cup {p}
                           /\ todo' = todo \ OrbitQ(G, p, Q)
        /\ UNCHANGED <<G, pts>>
Full == UNION {OrbitQ(G, p, Q) : p \in pts}
(* whatever order the points are taken in: the representatives expand to the same set, one per orbit *)
RoundTrip == todo = {} => /\ UNION {OrbitQ(G, p, Q) : p \in reps} = Full
                          /\ \A p, r \in reps : p # r => OrbitQ(G, p, Q) \cap OrbitQ(G, r, Q) = {}
Partition == \A p, r \in Full : OrbitQ(G, p, Q) = OrbitQ(G, r, Q) \/ OrbitQ(G, p, Q) \cap OrbitQ(G, r, Q) = {}
OrbitStabilizer == \A p \in pts : /\ Cardinality(OrbitQ(G, p, Q)) * Cardinality(StabQ(G, p, Q)) = Cardinality(G)
                                  /\ Cardinality(Orbit(G, p)) * Cardinality(Stab(G, p)) = Cardinality(G)
(* the weights of the representatives count the points of the cell: sum |G|/|Stab| = |Full| *)
WeightSum == todo = {} => SumOver(reps, LAMBDA p: Cardinality(G) \div Cardinality(StabQ(G, p, Q))) = Cardinality(Full)
SetToSeq1(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Range1(s) = S
FitsSet(S) == \A p \in S : Orbit(Real(G, FALSE), p) \subseteq S /\ VNeg(p) \in S
CompleteIdem == LET s == CompleteOrbit(Real(G, FALSE), SetToSeq1(pts)) IN FitsSet(s)
=============================================================================
