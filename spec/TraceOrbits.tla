----------------------------- MODULE TraceOrbits -----------------------------
EXTENDS Orbits, TraceBase
Grp(e) == Closure(Range1(e.gens) \cup (IF e.inv THEN {MNeg(Eye(e.dim))} ELSE {}), e.dim)

(* ---- expansion: e.pts -> e.out with sources e.src (1-based; sequences of indices when collected) *)
ExpandClauses(e) ==
  LET G == Grp(e)
      want == Expansion(G, e.pts, e.cell, e.q)
      got == Range1(e.out) IN <<
   <<"no_point_missing", want \subseteq got>>,
   <<"no_extra_point", got \subseteq want>>,
   <<"each_point_once", AllDistinct(e.out)>>,
   <<"grid_order", e.ordered => GridSorted(e.out)>>,
   <<"source_equivalent", Len(e.src) = Len(e.out) /\ \A i \in 1..Len(e.out) :
        IF e.collect THEN Range1(e.src[i]) = Sources(G, e.pts, e.cell, e.q, e.out[i]) /\ AllDistinct(e.src[i])
        ELSE e.src[i] \in Sources(G, e.pts, e.cell, e.q, e.out[i])>> >>
(* ---- data is carried along: e.data[i] is a vector; e.od[i] is what came out *)
DataClauses(e) ==
  LET G == Grp(e) IN <<
   <<"data_points", Range1(e.out) = Expansion(G, e.pts, e.cell, e.q) /\ AllDistinct(e.out)>>,
   <<"data_of_source", Len(e.od) = Len(e.out) /\ \A i \in 1..Len(e.out) :
        LET src == Sources(G, e.pts, e.cell, e.q, e.out[i]) IN
        IF e.average
        THEN \A c \in 1..Len(e.od[i]) : Cardinality(src) * e.od[i][c] = SumOver(src, LAMBDA j: e.data[j][c])
        ELSE \E j \in src : e.od[i] = e.data[j]>> >>
(* ---- reduction: e.pts with e.data -> e.out with e.od *)
ReduceClauses(e) ==
  LET G == Grp(e)
      sym == \A i \in 1..Len(e.pts) : \A j \in 1..Len(e.pts) :
                e.pts[j] \in Orbit(G, e.pts[i]) => e.data[i] = e.data[j] IN
  IF ~e.ok THEN << <<"raised", e.checked /\ ~sym>> >>
  ELSE <<
   <<"asymmetric_data_accepted", e.checked => sym>>,
   <<"one_representative_each", \A i, j \in 1..Len(e.out) : i # j => e.out[i] \notin Orbit(G, e.out[j])>>,
   <<"subset_of_input", Range1(e.out) \subseteq Range1(e.pts)>>,
   <<"all_classes_kept", \A p \in Range1(e.pts) : \E r \in Range1(e.out) : p \in Orbit(G, r)>>,
   <<"data_kept", Len(e.od) = Len(e.out) /\ \A i \in 1..Len(e.out) :
        \E j \in 1..Len(e.pts) : e.pts[j] = e.out[i] /\ e.od[i] = e.data[j]>> >>
(* ---- weights: e.w[i] = 1 / k_weight, e.c[i] = r_class_size *)
WeightClauses(e) ==
  LET G == Grp(e) IN <<
   <<"cell_weight", Len(e.w) = Len(e.pts) /\ \A i \in 1..Len(e.pts) : e.w[i] = Cardinality(StabQ(G, e.pts[i], e.q))>>,
   <<"class_size", Len(e.c) = Len(e.pts) /\ \A i \in 1..Len(e.pts) : e.c[i] = Cardinality(Orbit(G, e.pts[i]))>> >>
(* ---- classes among the given points: pairs (i, members) *)
FindClauses(e) ==
  LET G == Grp(e) cls == Range1(e.cls) IN <<
   <<"classes_are_orbits", \A c \in cls : Range1(c[2]) = {j \in 1..Len(e.pts) : e.pts[j] \in Orbit(G, e.pts[c[1]])}>>,
   <<"classes_partition", \A j \in 1..Len(e.pts) : Cardinality({c \in cls : j \in Range1(c[2])}) = 1>> >>
(* ---- neighbors *)
NeighborClauses(e) ==
  LET R == Real(Grp(e), e.cart) all == CompleteOrbit(R, e.pts) IN <<
   <<"complete", PM(Range1(e.out)) = all>>,
   <<"one_of_each_pair", AllDistinct(e.out) /\ \A p \in Range1(e.out) : p = VNeg(p) \/ VNeg(p) \notin Range1(e.out)>>,
   <<"sorted_by_length", \A i \in 1..(Len(e.out) - 1) : Len2(e.out[i], e.gram) <= Len2(e.out[i + 1], e.gram)>>,
   <<"zero_first", Zero(e.dim) \in Range1(e.pts) => e.out[1] = Zero(e.dim)>>,
   <<"source_equivalent", Len(e.src) = Len(e.out) /\ \A i \in 1..Len(e.out) :
        e.src[i] \in 1..Len(e.pts) /\ e.out[i] \in PM(Orbit(R, e.pts[e.src[i]]))>>,
   <<"direct_source", \A i \in 1..Len(e.out) :
        (\E j \in 1..Len(e.pts) : e.out[i] \in Orbit(R, e.pts[j])) => e.out[i] \in Orbit(R, e.pts[e.src[i]])>>,
   <<"accepted_by_check", e.accepted>> >>
CheckNClauses(e) == << <<"accepted_unfit", e.accepted => FitsNeighbors(Real(Grp(e), e.cart), e.pts)>>,
                       <<"rejected_fit", FitsNeighbors(Real(Grp(e), e.cart), e.pts) => e.accepted>> >>
FinderClauses(e) == << <<"finder", \A i \in 1..Len(e.query) :
        LET q == e.query[i] a == e.ans[i] IN
        IF q \in Range1(e.pts) THEN a = <<(CHOOSE j \in 1..Len(e.pts) : e.pts[j] = q), 0>>
        ELSE IF VNeg(q) \in Range1(e.pts) THEN a = <<(CHOOSE j \in 1..Len(e.pts) : e.pts[j] = VNeg(q)), 1>>
        ELSE a = <<0, 0>> >> >>
(* ---- tensors: e.mean = |G| * result, e.again = |G| * symmetrize(result) *)
TensorClauses(e) ==
  LET G == Grp(e) IN <<
   <<"group_mean", e.mean = MeanTimesOrder(G, e.tensor, e.dim, e.rank, e.pseudo)>>,
   <<"invariant", \A g \in G : Act(g, e.mean, e.dim, e.rank, e.pseudo) = e.mean>>,
   <<"idempotent", e.again = e.mean>>,
   <<"input_untouched", e.untouched>> >>
Clauses(e) ==
  IF e.k = "reduce" THEN ReduceClauses(e)
  ELSE IF ~e.ok THEN << <<"raised", FALSE>> >>
  ELSE CASE e.k = "expand" -> ExpandClauses(e)
         [] e.k = "data" -> DataClauses(e)
         [] e.k = "weight" -> WeightClauses(e)
         [] e.k = "find" -> FindClauses(e)
         [] e.k = "neighbors" -> NeighborClauses(e)
         [] e.k = "checkn" -> CheckNClauses(e)
         [] e.k = "finder" -> FinderClauses(e)
         [] e.k = "tensor" -> TensorClauses(e)
         [] OTHER -> << <<"unknown event", FALSE>> >>
Verdict == Judge(Clauses(Trace[l]))
=============================================================================
