------------------------------- MODULE TraceDos -------------------------------
EXTENDS Dos, TraceBase
LOCAL INSTANCE SequencesExt
Sys(e, d) == [method |-> e.method, wrap |-> e.wrap, bands |-> e.bands, diag |-> d]
Diags(e) == IF e.method = "tetras" THEN Diagonals ELSE {<<0, 0, 0>>}
Zero0 == <<0, 0, 0>>
NTol(e) == IF e.method = "spheres" THEN 30 * Len(e.bands) ELSE 60 * Len(e.bands)
DTol(e) == 400 * Len(e.bands)
DosOk(e, d) == LET s == Sys(e, d) IN \A i \in 1..Len(e.vs) : LET v == e.vs[i] IN AnyJump(s, v) \/
    /\ Near(e.N[i], States(s, v), NTol(e))
    /\ \A b \in 1..Nb(s) : Near(e.NB[i][b], BandN(s, b, v), NTol(e))
    /\ e.method # "spheres" => Near(e.D[i], Density(s, v), DTol(e)) /\ \A b \in 1..Nb(s) : Near(e.DB[i][b], BandD(s, b, v), DTol(e))
DosClauses(e) == LET s == Sys(e, Zero0) IN <<
   <<"states_and_densities", \E d \in Diags(e) : DosOk(e, d)>>,
   <<"both_at_once", \A i \in 1..Len(e.vs) : Near(e.N[i], e.N2[i], 1) /\ Near(e.D[i], e.D2[i], 2)>>,
   <<"density_is_the_sum_of_its_bands", \A i \in 1..Len(e.vs) : Abs(e.D[i]) > 1000 * One \/ Near(e.D[i], SumSeq(e.DB[i]), 4)>>,
   <<"cut_bands", \A i \in 1..Len(e.vs) : e.cut[i] = SelectSeq([b \in 1..Nb(s) |-> b], LAMBDA b: CutBand(s, b, e.vs[i]))>>,
   <<"band_count", e.count = Nb(s)>>,
   <<"band_ranges", \A b \in 1..Nb(s) : e.ranges[b] = BandRange8(s, b)>>,
   <<"energy_range", e.range = <<BandRange8(s, 1)[1], BandRange8(s, Nb(s))[2]>>>>,
   <<"arguments_unchanged", e.same>> >>
(* electrons = el[1] / el[2] *)
FermiClauses(e) == LET s0 == Sys(e, Zero0) n == Nb(s0) el == (e.el[1] * One) \div e.el[2] whole == e.el[1] % e.el[2] = 0 k == e.el[1] \div e.el[2]
                       iso == whole /\ Isolator(s0, k) IN <<
   <<"none", e.el[1] = 0 => e.ef16 = 2 * BandRange8(s0, 1)[1]>>,
   <<"all", whole /\ k = n => e.ef16 = 2 * BandRange8(s0, n)[2]>>,
   <<"isolator_in_the_middle_of_the_gap", iso => e.ef16 = MidGap16(s0, k)>>,
   <<"bandgap", e.gap8 >= 0 => e.gap8 = IF iso THEN Gap8(s0, k) ELSE 0>>,
   <<"filled_up_to_here", (e.method = "cubes+" /\ e.ef16 # 1000000) \/ (Min2(e.Nlow, e.Nhigh) <= el + 20 /\ el - 20 <= Max2(e.Nlow, e.Nhigh))>>,
   <<"between_exact_levels", e.method = "cubes+" \/ \E d \in Diags(e) : LET s == Sys(e, d) IN
        States(s, e.lo8) <= el + NTol(e) /\ (States(s, e.hi8) >= el - NTol(e) \/ AnyJump(s, e.hi8))>> >>
(* N points per band, without duplicates *)
CurvePoints(e) == LET s == Sys(e, Zero0) IN UNION {LET r == BandRange8(s, b) IN {r[1] + (i * (r[2] - r[1])) \div (e.n - 1) : i \in 0..(e.n - 1)} : b \in 1..Nb(s)}
CurveClauses(e) == <<
   <<"energies", Range1(e.es) = CurvePoints(e) /\ \A i \in 2..Len(e.es) : e.es[i - 1] < e.es[i]>>,
   <<"lengths", Len(e.N) = Len(e.es) /\ Len(e.D) = Len(e.es)>>,
   <<"states_and_densities", \E d \in Diags(e) : LET s == Sys(e, d) IN \A i \in 1..Len(e.es) : AnyJump(s, e.es[i]) \/
        (Near(e.N[i], States(s, e.es[i]), NTol(e)) /\ (e.method = "spheres" \/ Near(e.D[i], Density(s, e.es[i]), DTol(e))))>> >>
(* at finite temperature: smeared by the derivative of the Fermi function; the reference integrates the curve of zero temperature numerically *)
WarmClauses(e) == LET n == Len(e.es) IN <<
   <<"energies", \A i \in 2..n : e.es[i - 1] <= e.es[i]>>,
   <<"cold_energies_are_kept", \A i \in 1..Len(e.cold) : \E j \in 1..n : e.es[j] = e.cold[i]>>,
   <<"states", \A i \in 1..n : Near(e.N[i], e.refN[i], 300)>>,
   <<"densities", e.tame => \A i \in 1..n : Near(e.D[i], e.refD[i], 300 + e.refD[i] \div 200)>>,
   <<"bounds", \A i \in 1..n : e.N[i] >= -2 /\ e.N[i] <= Len(e.bands) * One + 2>> >>
EnergyClauses(e) == LET s == Sys(e, Zero0) IN <<
   <<"energy_of_the_filled_states", \A i \in 1..Len(e.vs) : AnyJump(s, e.vs[i]) \/ (\E b \in 1..Nb(s) : e.vs[i] = BandRange8(s, b)[1]) \/ Near(e.E[i], Energy(s, e.vs[i]), e.etol)>>,
   <<"spin_factor", \A i \in 1..Len(e.vs) : Near(e.E[i], e.E2[i], 2)>> >>
(* points of the cut of all bands; den = weight times number of cells *)
SurfaceClauses(e) == LET s == [Sys(e, Zero0) EXCEPT !.method = "cubes"] J(b, p) == CellJ(s, b, p, e.v) IN <<
   <<"bands", \A i \in 1..Len(e.pts) : CutBand(s, e.pts[i].band, e.v)>>,
   <<"distinct", AllDistinct(Map(e.pts, LAMBDA x: <<x.band, x.cell>>))>>,
   <<"weights_are_densities", \A i \in 1..Len(e.pts) : J(e.pts[i].band, e.pts[i].cell) \/ Near(e.pts[i].den, CellD(s, e.pts[i].band, e.pts[i].cell, e.v), 600)>>,
   <<"complete", \A b \in 1..Nb(s) : CutBand(s, b, e.v) => \A p \in CellSet(s) : CellD(s, b, p, e.v) > 400 /\ ~J(b, p) => \E i \in 1..Len(e.pts) : e.pts[i].band = b /\ e.pts[i].cell = p>>,
   <<"areas", \A i \in 1..Len(e.pts) : e.pts[i].area > 100 * One \/ Near(e.pts[i].area, e.pts[i].refarea, 20 + e.pts[i].refarea \div 1000)>>,
   <<"total_area", e.pts = <<>> \/ Near(e.area, e.sumarea, 20 + e.sumarea \div 1000)>>,
   <<"normalized_per_band", \A i \in 1..Len(e.bandsum) : Near(e.bandsum[i], One, 20)>>,
   <<"normalized", e.pts = <<>> \/ Near(e.totalsum, One, 20)>>,
   <<"same_points", e.samepts>> >>
(* band ranges improved by Newton steps: c the extremum of a quadratic band (in eighths), exact if the band is separable *)
RefineClauses(e) == <<
   <<"no_sampled_energy_excluded", \A b \in 1..Len(e.range) : e.range[b][1] <= e.sampled[b][1] + 1 /\ e.range[b][2] >= e.sampled[b][2] - 1>>,
   <<"attained", \A b \in 1..Len(e.range) : e.range[b][1] >= e.true[b][1] - 2 /\ e.range[b][2] <= e.true[b][2] + 2>>,
   <<"improved", \A b \in 1..Len(e.range) : /\ e.exact[b] \in {"min", "both"} => Near(e.range[b][1], e.true[b][1], 2)
                                            /\ e.exact[b] \in {"max", "both"} => Near(e.range[b][2], e.true[b][2], 2)>> >>
CheckClauses(e) == << <<"periodic_models_only", e.accepted = e.periodic>> >>
(* all energies in a list; a filled state counts for one k-point of one band *)
(* the occupation of a state d kT ln 3 above the chemical potential, in units of 10^-6: 1 / (1 + 3^d) *)
Occ3(d) == IF d > 15 THEN 0 ELSE IF d >= 0 THEN 1000000 \div (1 + 3^d) ELSE IF d < -15 THEN 1000000 ELSE 1000000 - 1000000 \div (1 + 3^(-d))
NaiveClauses(e) == LET s == SortSeq(e.es, LAMBDA x, y: x < y) n == Len(s) k == e.filled IN <<
   <<"fermi_energy", e.ef2 = IF k = 0 THEN 2 * s[1] ELSE IF k = n THEN 2 * s[n] ELSE s[k] + s[k + 1]>>,
   <<"energy", IF e.warm THEN \A i \in 1..Len(e.mus) : Near(e.E[i], e.spin * SumSeq([j \in 1..n |-> s[j] * Occ3(s[j] - e.mus[i])]), 40 * n)
                ELSE \A i \in 1..Len(e.mus) : e.E[i] = e.spin * SumSeq(SelectSeq(s, LAMBDA x: x <= e.mus[i]))>> >>
(* finite temperature: counted = sum of the Fermi functions over a fine grid at the chemical potential found *)
ThermalClauses(e) == LET n == Len(e.mu) IN <<
   <<"zero_temperature", e.zero = e.ef>>,
   <<"electrons_are_conserved", \A i \in 1..n : Near(e.counted[i], e.el, e.ntol)>>,
   <<"batches", \A i \in 1..n : Near(e.countedsingle[i], e.el, e.ntol)>>,
   <<"symmetric_band_half_filled", e.symmetric => \A i \in 1..n : Near(e.mu[i], e.center, 300)>>,
   <<"insulator_in_the_gap", e.gap = <<>> \/ \A i \in 1..n : e.cold[i] => e.mu[i] >= e.gap[1] /\ e.mu[i] <= e.gap[2]>>,
   <<"energy", \A i \in 1..n : Near(e.E[i], e.refE[i], e.etol + Abs(e.mu[i]) \div 40)>>,
   <<"finely_spaced_temperatures", e.gap # <<>> \/ \A i \in 1..Len(e.batch) : Near(e.batch[i], 0, 150)>>,
   <<"seebeck_zero_temperature", e.S00 = <<0, 0>> /\ e.S0 = 0>>,
   <<"seebeck",  \A i \in 1..n : e.gap # <<>> \/ ~e.warm[i] \/ Near(e.S[i], e.refS[i], 4000 + Abs(e.refS[i]) \div 8)>>,
   <<"heat_capacity", e.C0 = 0 /\ \A i \in 1..n : e.gap # <<>> \/ ~e.judge[i] \/ Near(e.C[i], e.refC[i], 300 + (4 * e.refC[i]) \div 10)>>,
   <<"k_resolved", \A i \in 1..n : e.kmin[i] >= -10 /\ (e.gap # <<>> \/ Near(e.kmean[i], e.refkd[i], 100 + e.refkd[i] \div 200)) /\ (~e.warm[i] \/ Near(e.kmean[i], e.refk[i], e.ktol))>> >>
KresClauses(e) == LET s == Sys(e, Zero0) C == Cells(e.bands[1], e.wrap) D == Dims(e.bands[1]) w == IF e.wrap THEN 0 ELSE 1
                      Nth(j) == <<((j - 1) \div ((D[2] - w) * (D[3] - w))) + 1, (((j - 1) \div (D[3] - w)) % (D[2] - w)) + 1, ((j - 1) % (D[3] - w)) + 1>> IN <<
   <<"density_of_each_cell", \A i \in 1..Len(e.vs), j \in 1..Cardinality(C) :
        (\E b \in 1..Nb(s) : CellJ(s, b, Nth(j), e.vs[i])) \/ Near(e.K[i][j], SumSeq([b \in 1..Nb(s) |-> CellD(s, b, Nth(j), e.vs[i])]), DTol(e))>> >>
(* points brought to the level by a Newton step *)
ImprovedClauses(e) == <<
   <<"points", e.n = e.n0 /\ e.n > 0>>,
   <<"bands", e.bandsok>>,
   <<"on_the_surface", e.res <= e.rtol>>,
   <<"unit_of_energy", \A i \in 1..Len(e.zoom) : e.zoom[i] <= 50>>,
   <<"not_worse", e.mean <= e.mean0 + 10>>,
   <<"density", Near(e.den, e.refden, e.refden \div 8 + 500)>>,
   <<"normalized", Near(e.totalsum, One, 20)>>,
   <<"model_arguments", e.same>> >>
Clauses(e) ==
  IF ~e.ok THEN << <<"raised", FALSE>> >>
  ELSE CASE e.k = "dos" -> DosClauses(e)
         [] e.k = "fermi" -> FermiClauses(e)
         [] e.k = "curve" -> CurveClauses(e)
         [] e.k = "warm" -> WarmClauses(e)
         [] e.k = "energy" -> EnergyClauses(e)
         [] e.k = "surface" -> SurfaceClauses(e)
         [] e.k = "refine" -> RefineClauses(e)
         [] e.k = "check" -> CheckClauses(e)
         [] e.k = "naive" -> NaiveClauses(e)
         [] e.k = "thermal" -> ThermalClauses(e)
         [] e.k = "kres" -> KresClauses(e)
         [] e.k = "improved" -> ImprovedClauses(e)
         [] OTHER -> << <<"unknown event", FALSE>> >>
Verdict == Judge(Clauses(Trace[l]))
=============================================================================
