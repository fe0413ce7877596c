------------------------------ MODULE TraceFit ------------------------------
EXTENDS Fit, TraceBase
(* ---- loss functions *)
LossClauses(e) == <<
   <<"loss", e.l2 = Loss2(e.B, e.R, e.w, e.off)>>,
   <<"error_is_loss", e.e2 = e.l2>>,
   <<"max_error_per_band", e.maxerr = MaxErr(e.B, e.R, e.off)>>,
   <<"arguments_unchanged", e.same>> >>
WindowClauses(e) == <<
   <<"windowed_loss", e.l2 = (IF e.skip THEN Assigned2(e.B, e.R, e.lo, e.hi) ELSE Windowed2(e.B, e.R, e.lo, e.hi))>>,
   <<"arguments_unchanged", e.same>> >>
HistClauses(e) == <<
   <<"bins", Len(e.c) = e.n /\ Len(e.v) = e.n /\ \A i \in 1..e.n : e.c[i] = Center(e.B, e.R, e.n, i)>>,
   <<"errors", IF e.skip THEN SkipHist(e.B, e.R, e.n, e.v, 1, [i \in 1..e.n |-> 0], [i \in 1..e.n |-> 0]) ELSE \E o \in Best(e.B, e.R) : \A i \in 1..e.n :
        HistAt(e.B, e.R, e.n, o, i, TRUE) <= e.v[i] /\ e.v[i] <= HistAt(e.B, e.R, e.n, o, i, FALSE)>>,
   <<"arguments_unchanged", e.same>> >>
(* ---- reports: weights are scaled to a mean of one, so loss^2 = n^2 Loss2(w) / (sum w)^2; the text has three digits of the loss *)
ReportClauses(e) == LET n == Len(e.w) tot == (IF e.scalar THEN n ELSE SumSeq(e.w))
                        w == (IF e.scalar THEN [i \in 1..n |-> 1] ELSE e.w)
                        want == 1000 * n * n * Loss2(e.B, e.R, w, e.off) IN <<
   <<"reported_loss", tot > 0 /\ Abs(e.l2 - want) <= want \div 50 + 1>>,
   <<"reported_errors", e.maxerr = MaxErr(e.B, e.R, e.off)>>,
   <<"arguments_unchanged", e.same>> >>
NormsClauses(e) == LET N2(i) == Norm2Mat(e.mats[((i - 1) % Len(e.mats)) + 1]) IN <<
   <<"a_norm_per_matrix", Len(e.n2) >= Len(e.mats) /\ \A i \in 1..Len(e.n2) : e.n2[i] = N2(i)>> >>
PlotLossClauses(e) == LET n == Len(e.ops) IN <<
   <<"losses_over_iterations", e.x = [i \in 1..n |-> e.ops[i].i] /\ e.y = [i \in 1..n |-> e.ops[i].loss]>>,
   <<"scales", e.log /\ e.style>>, <<"range", e.xlim = <<e.ops[1].i, e.ops[n].i>> >> >>
RejectClauses(e) == << <<"refused", e.raised = e.want>> >>
(* ---- the log, after every call *)
RECURSIVE Replay(_, _)
Replay(g, ops) == IF ops = <<>> THEN <<>> ELSE
   LET o == Head(ops)
       h == CASE o.op = "msg" -> AddMsg(g, o.m) [] o.op = "data" -> AddData(g, o.i, o.loss) [] o.op = "abort" -> (IF g.aborted THEN g ELSE Abort(g))
              [] o.op = "count" -> [g EXCEPT !.count = o.v] [] OTHER -> g
   IN <<h>> \o Replay(h, Tail(ops))
SameLog(g, s) == /\ g.its = s.its /\ g.loss = s.loss /\ g.aborted = s.aborted /\ LastIt(g) = s.last
                 /\ Len(g.stream) = Len(s.stream) /\ \A i \in 1..Len(s.stream) : g.stream[i] = s.stream[i]
RECURSIVE AbortedBefore(_, _)
AbortedBefore(ops, i) == \E j \in 1..(i - 1) : ops[j].op = "abort"
LogClauses(e) == LET gs == Replay(Log0(FALSE), e.ops) IN <<
   <<"log_contents", Len(e.seen) = Len(gs) /\ \A i \in 1..Len(gs) : SameLog(gs[i], e.seen[i])>>,
   <<"abort_twice_refused", \A i \in 1..Len(e.ops) : e.seen[i].raised = (e.ops[i].op = "abort" /\ AbortedBefore(e.ops, i))>>,
   <<"last_loss", \A i \in 1..Len(gs) : gs[i].loss # <<>> => e.seen[i].lastloss = gs[i].loss[Len(gs[i].loss)]>>,
   <<"silent", (~e.printing) => \A i \in 1..Len(e.ops) : e.ops[i].op = "data" => e.seen[i].out = ""
   >>,
   <<"messages_shown", \A i \in 1..Len(e.ops) : e.ops[i].op = "msg" => (e.seen[i].shown <=> e.verbose)>>,
   <<"printed_line", e.printing => \A i \in 1..Len(e.ops) : e.ops[i].op = "data" =>
        LET m == MaxOf(Range1(e.ops[i].err)) p == e.seen[i].nums IN p[1] = e.ops[i].i /\ 100 * Abs(p[2] - 1000 * e.ops[i].loss) <= 1000 * e.ops[i].loss /\ 20 * Abs(p[3] - 1000 * m) <= 1000 * m>>,
   <<"bars", e.printing => \A i \in 1..Len(e.ops) : e.ops[i].op = "data" =>
        /\ Len(e.seen[i].bars) = Len(e.ops[i].err)
        /\ \A b \in 1..Len(e.ops[i].err) : BarOk(e.seen[i].bars[b], e.ops[i].err[b], MaxOf(Range1(e.ops[i].err)))>> >>
(* ---- fits.  Losses in fixed point with their own tolerance *)
Near(a, b, tol) == Abs(a - b) <= tol
FitClauses(e) == <<
   <<"same_logger_returned", e.samelog>>,
   <<"protocol", RunOk(e.stream, e.n, e.every)>>,
   <<"aborted_flag", e.aborted = (Position(e.stream, "aborted") # {})>>,
   <<"not_aborted", e.cut = 0 => ~e.aborted>>,
   <<"first_loss_is_that_of_the_start", Datas(e.stream)[1].i = 0 /\ Len(Datas(e.stream)) > 1 => Near(Datas(e.stream)[1].loss, e.startloss, e.tol)>>,
   <<"logged_losses_are_those_of_the_model", \A i \in 1..Len(e.during) : Near(e.during[i][1], e.during[i][2], e.tol)>>,
   <<"last_loss_is_that_of_the_result", LET d == Datas(e.stream) IN Near(d[Len(d)].loss, e.endloss, e.tol)>>,
   <<"last_errors_are_those_of_the_result", e.errok>>,
   <<"finite", e.finite>>,
   <<"hermitian_onsite", e.herm>>,
   <<"symmetric", e.symok>>,
   <<"zeros_kept", e.keep => e.nonzeros <= e.nonzeros0>>,
   <<"neighbors_unchanged", e.nbsame>>,
   <<"arguments_unchanged", e.argsame>>,
   <<"gamma_fixed", e.gammaok>>,
   <<"exact_data_is_fitted", e.exact => e.endloss <= e.exacttol>>,
   <<"fit_stays_near", e.near => e.endloss <= e.neartol>>,
   <<"fit_stays_fit", e.perfect => e.endloss <= e.tol>> >>
(* interrupted runs: the model is one that an uninterrupted run passes through *)
CutClauses(e) == <<
   <<"interrupt_handled", e.logged >= 1 /\ e.logged < e.n /\ Position(e.stream, "converged") = {} => e.caught>>,
   <<"interrupt_reported", e.caught => e.aborted /\ Position(e.stream, "aborted") # {}>>,
   <<"protocol", e.caught => RunOk(e.stream, e.n, e.every)>>,
   <<"only_completed_steps", e.caught => \E i \in 1..Len(e.losses) : Near(e.endloss, e.losses[i], e.tol)>>,
   <<"completed_steps_kept", e.caught => \E i \in 1..Len(e.losses) : i >= e.logged - 1 /\ i <= e.logged + 2 /\ Near(e.endloss, e.losses[i], e.tol)>>,
   <<"last_loss_is_that_of_the_result", e.caught => LET d == Datas(e.stream) IN Near(d[Len(d)].loss, e.endloss, e.tol)>>,
   <<"finite", e.finite>> >>
(* starting points for fits *)
(* e.kind: "ref" (bands at Gamma extended by e.off copies below and the rest of e.add above), "zero" (nothing known), "asym"        *)
(* one parameter per neighbor if the coefficient functions determine each other (exponentials, inversion), otherwise cos and sin  *)
(* (in even dimensions the inversion is a rotation of the group: the sines may be kept there, they are zero)                          *)
StartTerms(e) == IF e.kind = "asym" \/ e.expo THEN {Len(e.nb)} ELSE IF e.sym = "inv" THEN {Len(e.nb)} \cup (IF e.dim = 2 THEN {2 * Len(e.nb) - 1} ELSE {}) ELSE {2 * Len(e.nb) - 1}
StartOnsite(e) == [i \in 1..(e.nr + e.add) |-> IF e.kind = "zero" THEN 0 ELSE IF i <= e.off THEN e.gamma[1] ELSE IF i > e.off + e.nr THEN e.gamma[e.nr] ELSE e.gamma[i - e.off]]
StartClauses(e) == <<
   <<"number_of_bands", e.bands = e.nr + e.add>>,
   <<"number_of_parameters", e.terms \in StartTerms(e)>>,
   <<"onsite_energies", e.onsite = StartOnsite(e)>>,
   <<"small_rest", e.small>>, <<"zero", e.kind = "zero" => e.zero>>, <<"bands_everywhere", e.flat>>, <<"neighbors", e.nbsame>> >>
(* ---- the symmetric model: it prints its losses (every 100 iterations and at the end) instead of logging them *)
TFitClauses(e) == <<
   <<"losses_shown", Len(e.shown) = (e.n + 99) \div 100 + 1 /\ e.last = "final loss">>,
   <<"last_loss_is_that_of_the_model", Near(e.shown[Len(e.shown)], e.endloss, e.showtol)>>,
   <<"finite", e.finite>>, <<"hermitian", e.herm>>, <<"symmetry_kept", e.symok>>, <<"neighbors_kept", e.nbsame>>, <<"arguments_unchanged", e.argsame>>,
   <<"gamma_kept", e.gammaok>>,
   <<"perfect_fit_stays", e.perfect => e.endloss <= e.exacttol>>,
   <<"fit_stays_near", e.near => e.endloss <= e.neartol>>,
   <<"long_fits_get_closer", e.near /\ e.n > 99 => e.endloss <= e.startloss>>,
   <<"exact_data_reached", e.exact => e.endloss <= e.exacttol>>,
   <<"nothing_without_iterations", e.n = 0 => Near(e.endloss, e.startloss, e.tol)>> >>
TCutClauses(e) == <<
   <<"completed_steps_kept", e.caught => \E i \in 1..Len(e.losses) : Near(e.endloss, e.losses[i], e.tol)>>,
   <<"interrupt_told", e.caught => e.said /\ e.finished>>, <<"finite", e.finite>> >>
TStartClauses(e) == LET n == e.nr + e.add lowest == MinOf(Range1(e.gamma)) IN <<
   <<"bands_at_gamma", e.dev /\ SameMultiset(e.at0, [i \in 1..n |-> IF i <= e.nr THEN 100 * e.gamma[i] ELSE 100 * lowest - 1])>>,
   <<"terms", e.terms = (IF e.half THEN e.nb ELSE 2 * e.nb - 1)>>,
   <<"small_rest", e.small /\ e.flat>>, <<"not_stuck", n > 1 => e.nonzero>>, <<"symmetric", e.symok>>, <<"quiet", (~e.verbose) => e.silent>>, <<"arguments_unchanged", e.argsame>> >>
AutoClauses(e) == <<
   <<"number_of_bands", e.bands = e.nr + e.below + e.above>>,
   <<"files", e.files>>, <<"last_file_is_the_result", e.lastfile>>,
   <<"all_neighbors_used", e.nbcount = e.wantnb>>,
   <<"data_unchanged", e.argsame>>,
   <<"fitted", e.endloss <= (IF e.first = 1 THEN e.exacttol ELSE 1000000)>> >>
Clauses(e) ==
  IF ~e.ok THEN << <<"raised", FALSE>> >>
  ELSE CASE e.k = "loss" -> LossClauses(e)
         [] e.k = "window" -> WindowClauses(e)
         [] e.k = "hist" -> HistClauses(e)
         [] e.k = "reject" -> RejectClauses(e)
         [] e.k = "report" -> ReportClauses(e)
         [] e.k = "norms" -> NormsClauses(e)
         [] e.k = "plotloss" -> PlotLossClauses(e)
         [] e.k = "log" -> LogClauses(e)
         [] e.k = "fit" -> FitClauses(e)
         [] e.k = "cut" -> CutClauses(e)
         [] e.k = "start" -> StartClauses(e)
         [] e.k = "tfit" -> TFitClauses(e)
         [] e.k = "tcut" -> TCutClauses(e)
         [] e.k = "tstart" -> TStartClauses(e)
         [] e.k = "auto" -> AutoClauses(e)
         [] OTHER -> << <<"unknown event", FALSE>> >>
Verdict == Judge(Clauses(Trace[l]))
=============================================================================
