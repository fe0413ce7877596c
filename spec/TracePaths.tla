----------------------------- MODULE TracePaths -----------------------------
EXTENDS Paths, TraceBase
(* ---- a path: pts[i] is point i times 8 and times the steps of its segment *)
PathClauses(e) == <<
   <<"number_of_points", e.len = Total(e.segs) /\ e.iter = e.len>>,
   <<"start", e.start = e.wps[1]>>,
   <<"points", Len(e.pts) = Total(e.segs) - 1 /\ \A i \in 1..Len(e.pts) : e.pts[i] = PathPoint(e.wps, e.segs, i)>>,
   <<"indices", e.idx = Stops(0, e.segs)>>,
   <<"names", e.names = e.wantnames /\ Len(e.names) = Len(e.wps)>>,
   <<"dimension", e.dim = Len(e.wps[1])>>,
   <<"plot_positions", e.x0 = 0 /\ Len(e.dx2) = Total(e.segs) - 1 /\ \A i \in 1..Len(e.dx2) : e.dx2[i] = StepLen2(e.wps, SegOf(e.segs, i))>>,
   <<"tick_positions", e.ticks_at_points>>,
   <<"refused", \A i \in 1..Len(e.refusals) : e.refusals[i]>>,
   <<"points_dictionary_unchanged", e.dictok>> >>
(* the listing for quantum espresso: the points, in units that are twice as fine *)
ListClauses(e) == << <<"count", e.count = Total(e.segs) /\ Len(e.lines) = e.count>>,
   <<"points", \A i \in 1..Len(e.lines) : IF i = 1 THEN e.lines[1] = VScale(2, e.wps[1])
                  ELSE e.lines[i] = VScale(2, PathPoint(e.wps, e.segs, i - 1))>>,
   <<"weights", \A i \in 1..Len(e.w) : e.w[i] = 1>> >>
(* a plot: every band is one line over the plot positions, ticks at the waypoints *)
PlotClauses(e) == <<
   <<"one_line_per_band", Len(e.y) = Len(e.bands[1])>>,
   <<"values", \A b \in 1..Len(e.y) : e.y[b] = [i \in 1..Len(e.bands) |-> e.bands[i][b]]>>,
   <<"x_values", e.xok>>,
   <<"ticks", e.ticksok>>,
   <<"labels", e.lab # "" => /\ Range1(e.labelled) = 0..(Len(e.bands[1]) - 1)
                             /\ AllDistinct(e.labelled)>>,
   <<"label_positions", e.lab # "" => \A i \in 1..Len(e.labelled) :
        \* rounded to a tenth of the height of the text
        Abs(e.labelpos[i] - 1000 * e.bands[IF e.lab = "left" THEN 1 ELSE Len(e.bands)][e.labelled[i] + 1]) * 20 <= e.textsize * 1 + 40>> >>
(* a comparison: the model has the bands o.. of the reference; the same bands get the same color *)
(* a curve per band over the positions (their values if they are numbers, else the indices) *)
BandPlotClauses(e) == LET nk == Len(e.bands) nb == Len(e.bands[1]) IN <<
   <<"a_curve_per_band", e.y = [b \in 1..nb |-> [i \in 1..nk |-> e.bands[i][b]]]>>,
   <<"positions", \A b \in 1..Len(e.x) : e.x[b] = [i \in 1..nk |-> IF e.scalar THEN e.xs[i][1] ELSE i - 1]>>,
   <<"style_passed_on", e.style>>, <<"different_colors", e.colors = nb>>, <<"arguments_unchanged", e.same>> >>
CompareClauses(e) == <<
   <<"all_lines", Len(e.c1) = e.nm /\ Len(e.c2) = e.nr>>,
   <<"values", e.valok>>,
   <<"colors", \A i \in 1..e.nm : (e.o + i >= 1 /\ e.o + i <= e.nr) => e.c1[i] = e.c2[e.o + i]>>,
   <<"dashed", e.dashed>> >>
(* ---- interpolation *)
InterpClauses(e) == LET tab == Table(e.ops, e.inv, e.pts, e.vals, e.n, e.off) IN <<
   <<"input_complete", Complete(e.ops, e.inv, e.pts, e.n, e.off)>>,
   <<"values", Len(e.out) = Len(e.u) /\ \A i \in 1..Len(e.u) : \A b \in 1..Len(e.vals[1]) :
        e.out[i][b] = PeriodicAt(tab, e.n, e.off, e.u[i], b)>> >>
OpenClauses(e) == <<
   <<"values", Len(e.out) = Len(e.u) /\ \A i \in 1..Len(e.u) : \A b \in 1..Len(e.vals[1]) : e.out[i][b] = OpenAt(e.vals, e.n, e.u[i], b)>> >>
Hits(e, q) == {i \in 1..Len(e.pts) : \E o \in 1..Len(e.ops) : LET x == MV(e.ops[o], e.pts[i]) IN x = q \/ (e.inv /\ VNeg(x) = q)}
ScatterClauses(e) == <<
   <<"known_points", \A i \in 1..Len(e.q) : Hits(e, e.q[i]) # {} => e.found[i] /\ \E j \in Hits(e, e.q[i]) : e.out[i] = e.vals[j]>>,
   <<"unknown_points", \A i \in 1..Len(e.q) : (Hits(e, e.q[i]) = {} => ~e.found[i])>> >>
RejectClauses(e) == << <<"refused", e.raised = e.want>> >>
PointClauses(e) == <<
   <<"center", e.names[1] = "G" /\ Norm2(e.p[1]) = 0>>,
   <<"default_points_kept", e.kept>>,
   <<"special_points", \A i \in 2..Len(e.p) : SpecialPoint(e.p[i], e.g, e.tol)>> >>
Clauses(e) ==
  IF ~e.ok THEN << <<"raised", FALSE>> >>
  ELSE CASE e.k = "path" -> PathClauses(e)
         [] e.k = "list" -> ListClauses(e)
         [] e.k = "plot" -> PlotClauses(e)
         [] e.k = "bandplot" -> BandPlotClauses(e)
         [] e.k = "compare" -> CompareClauses(e)
         [] e.k = "interp" -> InterpClauses(e)
         [] e.k = "open" -> OpenClauses(e)
         [] e.k = "scatter" -> ScatterClauses(e)
         [] e.k = "reject" -> RejectClauses(e)
         [] e.k = "points" -> PointClauses(e)
         [] OTHER -> << <<"unknown event", FALSE>> >>
Verdict == Judge(Clauses(Trace[l]))
=============================================================================
