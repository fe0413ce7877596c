----------------------------- MODULE TraceFiles -----------------------------
EXTENDS Files, TraceBase
M(e) == MkModel(e.nb, e.H)
O(e) == MkModel(e.onb, e.oH)
SumsOf(bs, i) == TLCEval([j \in 1..Len(bs) |-> bs[j][i]])
BandsAre(e, m) == \A i \in 1..Len(e.q) : SumsOf(e.bs, i) = BandSums(m, e.q[i])
(* ---- saved and loaded again *)
RoundClauses(e) == <<
   <<"same_model", SameModel(O(e), M(e))>>,
   <<"same_neighbors", e.sorted => SameMultiset(e.onb, e.nb)>>,
   <<"shortest_first", e.sorted => ShortestFirst(O(e))>>,
   <<"bands", BandsAre(e, M(e))>>,
   <<"requested_form", e.form>>,
   <<"print_options_restored", e.popt>> >>
(* ---- the file format itself: matrices row by row, <<re, im>> per entry (or real numbers) *)
FromRows(n, d) == [i \in 1..n |-> [j \in 1..n |-> d[(i - 1) * n + j]]]
JsonWrittenClauses(e) == LET n == Len(e.H[1]) IN <<
   <<"sizes", e.n = n /\ Len(e.data) = Len(e.onb) /\ \A i \in 1..Len(e.dims) : e.dims[i] = <<n, n>> /\ e.v[i] = 1 /\ Len(e.data[i]) = n * n>>,
   <<"same_neighbors", SameMultiset(e.onb, e.nb)>>,
   <<"row_by_row", SameModel(MkModel(e.onb, [i \in 1..Len(e.data) |-> FromRows(n, e.data[i])]), M(e))>> >>
JsonReadClauses(e) == << <<"same_model", SameModel(O(e), M(e))>>, <<"shortest_first", ShortestFirst(O(e))>> >>
(* ---- models with overlap matrices: both series are kept; a class without overlaps refuses the file *)
OverlapClauses(e) == <<
   <<"same_model", SameModel(O(e), M(e))>>,
   <<"same_overlap", SameModel(MkModel(e.osnb, e.oS), MkModel(e.snb, e.S))>>,
   <<"shortest_first", ShortestFirst(O(e)) /\ ShortestFirst(MkModel(e.osnb, e.oS))>>,
   <<"bands", e.close>>,
   <<"refused_elsewhere", e.raised = "ValueError">> >>
(* ---- with a coefficient symmetry *)
SymClauses(e) == <<
   <<"same_model", SameModel(Expand(O(e), e.oops), Expand(M(e), e.ops))>>,
   <<"same_inversion", e.oinv = e.inv>>,
   <<"bands", BandsAre(e, Expand(M(e), e.ops))>>,
   <<"print_options_restored", e.popt>> >>
(* ---- floats are kept to the last bit; those below 1e-14 are stored as 0 *)
Zero2 == <<0, 0>>
BitsClauses(e) == <<
   <<"all_values", Len(e.out) = Len(e.tok)>>,
   <<"exact", \A i \in 1..Len(e.tok) : e.out[i] = (IF e.tiny[i] THEN Zero2 ELSE e.tok[i])>> >>
(* ---- wannier90 files *)
W90Clauses(e) == <<
   <<"input_well_formed", WellFormed(e.R, e.F, e.deg)>>,
   <<"means", Means(O(e), e.R, e.F, e.deg, e.f)>>,
   <<"half_list", HalfList(O(e))>>,
   <<"shortest_first", ShortestFirst(O(e))>>,
   <<"lattice", e.A = e.oA>>,
   <<"requested_form", e.form>>,
   <<"positions", \A i \in 1..Len(e.orp) : \E j \in 1..Len(e.R) : e.R[j] = e.onb[i] /\
        \A a \in 1..3 : e.orp[i][a] = Entry(e.rp[j][a], e.deg[j], e.f)>>,
   <<"bands", e.bsok => \A i \in 1..Len(e.q) : SumsOf(e.bs, i) = BandSums(O(e), e.q[i])>> >>
(* ---- what has to be refused *)
RejectClauses(e) == << <<"refused", e.raised = e.want>>, <<"print_options_restored", e.popt>>, <<"no_file_left", e.nofile>> >>
BigClauses(e) == << <<"large_model_kept", e.same>> >>
Clauses(e) ==
  IF ~e.ok THEN << <<"raised", FALSE>> >>
  ELSE CASE e.k = "round" -> RoundClauses(e)
         [] e.k = "sround" -> OverlapClauses(e)
         [] e.k = "jsonw" -> JsonWrittenClauses(e)
         [] e.k = "jsonr" -> JsonReadClauses(e)
         [] e.k = "symround" -> SymClauses(e)
         [] e.k = "bits" -> BitsClauses(e)
         [] e.k = "w90" -> W90Clauses(e)
         [] e.k = "reject" -> RejectClauses(e)
         [] e.k = "big" -> BigClauses(e)
         [] OTHER -> << <<"unknown event", FALSE>> >>
Verdict == Judge(Clauses(Trace[l]))
=============================================================================
