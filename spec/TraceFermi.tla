----------------------------- MODULE TraceFermi -----------------------------
EXTENDS Fermi, TraceBase
(* ---- the bands with values on both sides, and their values relative to the energy *)
Picked(e) == {b \in 1..Len(e.vals) : Cut(e.vals[b])}
SelectClauses(e) == <<
   <<"bands", Len(e.idx) = Len(e.vol) /\ AllDistinct(e.idx) /\ {e.idx[i] + 1 : i \in 1..Len(e.idx)} = Picked(e)>>,
   <<"values", \A i \in 1..Len(e.vol) : e.idx[i] + 1 \in 1..Len(e.vals) /\ e.vol[i] = e.vals[e.idx[i] + 1]>>,
   <<"shape", \A i \in 1..Len(e.shapes) : e.shapes[i] = e.shape>> >>
(* ---- the exported file *)
Base(gs, i) == SumSeq([k \in 1..(i - 1) |-> Len(gs[k].v)])
Own(gs, i) == TLCEval([k \in 1..Len(gs[i].f) |-> [m \in 1..Len(gs[i].f[k]) |-> gs[i].f[k][m] - Base(gs, i)]])
Asked(e) == Len(e.asked) = Cardinality(Nodes(e.n)) /\ Range1(e.asked) = Nodes(e.n)
ExportClauses(e) == <<
   <<"grid", Asked(e)>>,
   <<"bands", AllDistinct(Map(e.groups, LAMBDA g: g.band)) /\ {e.groups[i].band + 1 : i \in 1..Len(e.groups)} = Picked(e)>>,
   <<"vertices", \A i \in 1..Len(e.groups) : e.groups[i].band + 1 \in Picked(e) => VerticesOK(e.vals[e.groups[i].band + 1], e.n, e.groups[i].v)>>,
   <<"faces", \A i \in 1..Len(e.groups) : LET f == Own(e.groups, i) v == e.groups[i].v IN
        FacesInRange(v, f) /\ FacesInCells(v, f) /\ NoLoose(v, f)>>,
   <<"closed", \A i \in 1..Len(e.groups) : LET f == Own(e.groups, i) v == e.groups[i].v IN
        FacesInRange(v, f) => Closed(e.n, v, f)>>,
   <<"materials", \A i \in 1..Len(e.groups) : e.groups[i].material \in Range1(e.materials)>>,
   <<"material_file", e.mtl>>,
   <<"model_unchanged", e.same>> >>
(* ---- the triangles of the plot: their centers (times 3) are those of the surface; they may be grown about the center *)
Near(a, b) == \A i \in 1..3 : Abs(a[i] - b[i]) <= 12
Center3(v, f) == VAdd(VAdd(v[f[1]], v[f[2]]), v[f[3]])
PlotClauses(e) == LET want == TLCEval(UNION {LET f == Own(e.groups, i) IN {Center3(e.groups[i].v, f[k]) : k \in 1..Len(f)} : i \in 1..Len(e.groups)}) IN <<
   <<"count", Len(e.tri) = SumSeq([i \in 1..Len(e.groups) |-> Len(e.groups[i].f)])>>,
   <<"on_the_surface", \A i \in 1..Len(e.tri) : \E w \in want : Near(e.tri[i], w)>>,
   <<"complete", \A w \in want : \E i \in 1..Len(e.tri) : Near(e.tri[i], w)>>,
   <<"limits", \A i \in 1..3 : e.lim[i] = e.range>> >>
(* ---- a cut at z: the lines are the zeros of all bands of all models (of the determinant if accelerated) *)
ContourClauses(e) == LET zs == TLCEval(UNION {LET E == Edges(e.vals[b], e.n) IN {<<b, x>> : x \in E} : b \in 1..Len(e.vals)}) IN <<
   <<"grid", Asked(e)>>,
   <<"on_the_lines", \A i \in 1..Len(e.pts) : \E x \in zs : x[2] = EdgeOf(e.n, e.pts[i]) /\ IsZeroOf(e.vals[x[1]], e.n, x[2], e.pts[i])>>,
   <<"complete", \A x \in zs : \E i \in 1..Len(e.pts) : x[2] = EdgeOf(e.n, e.pts[i]) /\ IsZeroOf(e.vals[x[1]], e.n, x[2], e.pts[i])>>,
   <<"limits", \A i \in 1..2 : e.lim[i] = e.range>>,
   <<"height", e.height = e.z>>,
   <<"one_line_set_per_band", e.sets = Cardinality({b \in 1..Len(e.vals) : Cut(e.vals[b])})>> >>
Clauses(e) ==
  IF ~e.ok THEN << <<"raised", FALSE>> >>
  ELSE CASE e.k = "select" -> SelectClauses(e)
         [] e.k = "export" -> ExportClauses(e)
         [] e.k = "plot" -> PlotClauses(e) \o ExportClauses(e)
         [] e.k = "contour" -> ContourClauses(e)
         [] OTHER -> << <<"unknown event", FALSE>> >>
Verdict == Judge(Clauses(Trace[l]))
=============================================================================
