---------------------------- MODULE TraceTransport ----------------------------
EXTENDS Transport, TraceBase
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt
Sys(e) == [method |-> "cubes", wrap |-> e.wrap, bands |-> e.bands, diag |-> <<0, 0, 0>>]
Tau(e, p) == e.tau[p[1]][p[2]][p[3]]
Hess(e, b, p) == e.hess[b][p[1]][p[2]][p[3]]
NearT(x, y, tol) == \A i, j \in I3 : Near(x[i][j], y[i][j], tol)
(* T = 0: integrals over the cells at the Fermi level; everything per cell and volume *)
IntegralClauses(e) == LET s == Sys(e) v == e.v
        G == TLCEval([b \in 1..Nb(s) |-> [p \in CellSet(s) |-> Slopes(s, b, p)]])
        M(t(_)) == TLCEval([i \in I3 |-> [j \in I3 |-> CellSum(s, v, LAMBDA b, p: t(p) * G[b][p][i] * G[b][p][j])]])
        M1 == M(LAMBDA p: 1)
        Mt == M(LAMBDA p: Tau(e, p))
        tr == M1[1][1] + M1[2][2] + M1[3][3]
        tol == 400 * Nb(s) + tr \div 200
        H3 == TLCEval([i \in I3 |-> [j \in I3 |-> [k \in I3 |-> CellSum(s, v, LAMBDA b, p: LET h == Hess(e, b, p) g == G[b][p] IN
                 Tau(e, p) * Tau(e, p) * SumOver(I3 \X I3, LAMBDA q: Eps[k][q[1]][q[2]] * g[i] * h[j][q[1]] * g[q[2]]))]]])
        tol3 == 10 * 400 * Nb(s) + tr \div 10
        Bd == CellSum(s, v, LAMBDA b, p: Bend(G[b][p], Hess(e, b, p)))
    IN IF AnyJump(s, v) \/ ~e.level THEN <<>> ELSE <<
   <<"conductivity", NearT(e.L0, M1, tol)>>,
   <<"moments_vanish_at_the_level", \A i \in 1..Len(e.L12) : NearT(e.L12[i], [a \in I3 |-> [b \in I3 |-> 0]], 20 + tr \div 1000)>>,
   <<"drude_factor", NearT(e.drude, e.L0, 2 + tr \div 10000)>>,
   <<"scattering_time", NearT(e.Lt, Mt, 3 * tol)>>,
   <<"hall_sigma2", NearT(e.s2, Mt, 3 * tol)>>,
   <<"hall_sigma3", \A i, j, k \in I3 : Near(e.s3[i][j][k], H3[i][j][k], tol3)>>,
   <<"constant_time", NearT(e.Lc, MScale(e.tconst, e.L0), 4 + tr \div 1000) /\ NearT(e.s2c, MScale(e.tconst, e.L0), 4 + tr \div 1000)>>,
   <<"cubic_hall_coefficient", e.cubic = <<>> \/ tr < 20000 \/ Near(MulS(e.cubic[1], tr), Fix(3 * (Bd \div 100), 2 * (tr \div 100)), 2000 + Abs(e.cubic[1]) \div 20)>>,
   <<"positions", \A i \in 1..Len(e.dev) : Near(e.dev[i], 0, 5)>>,
   <<"energies", e.energies>>,
   <<"shapes", e.shapes>>,
   <<"order_of_calls", e.again>>,
   <<"arguments_unchanged", e.same>> >>
(* linear bands at finite temperature: their density is constant, so the integrals are moments *)
WarmClauses(e) == LET nb == Len(e.lo)
        Want(p, a, j) == SumSeq([b \in 1..nb |-> (Power(p, a, e.m, j) * (e.hi[b] - e.lo[b])) \div (e.unit * e.unit)])
    IN <<
   <<"chemical_potential", \A t \in 1..Len(e.mu) : Near(e.mu[t], (e.m * One) \div 8, 2)>>,
   <<"moments", \A i \in 1..Len(e.I) : LET x == e.I[i] IN x.p + x.a > e.degree \/ Near(x.I, Want(x.p, x.a, x.j), e.tol + Abs(Want(x.p, x.a, x.j)) \div e.rel)>>,
   <<"shapes", e.shapes>> >>
(* free electrons as hoppings: a truncated Fourier series of k^2, bands folded per direction; k in sixteenths of the zone, lengths 1 or 2 *)
FreeLevels(e, k) == LET D(i) == {x \in {k[i] + 16 * m : m \in (-e.bp)..e.bp} : Abs(x) <= 8 * e.bp}
        v(q) == SumSeq([i \in I3 |-> q[i] * q[i] * (4 \div (e.a[i] * e.a[i]))])
        S == SetToSeq({<<x, y, z>> : x \in D(1), y \in D(2), z \in D(3)})
    IN SortSeq([i \in 1..Len(S) |-> (v(S[i]) * (One \div 100) * 25) \div 256], LAMBDA x, y: x < y)
FreeTbClauses(e) == LET tol == SumSeq([i \in I3 |-> (e.bp * 6000) \div (e.a[i] * e.a[i] * e.nc)]) IN <<
   <<"number_of_bands", \A i \in 1..Len(e.ks) : Len(e.bands[i]) = e.bp * e.bp * e.bp>>,
   <<"neighbors", e.count = 3 * e.nc + 1>>,
   <<"free_electrons", \A i \in 1..Len(e.ks) : LET w == FreeLevels(e, e.ks[i]) IN Len(w) = Len(e.bands[i]) /\ \A b \in 1..Len(w) : Near(e.bands[i][b], w[b], tol)>>,
   <<"unit", Near(e.unit, 15041206, 10)>> >>
(* whatever the bands: (e - mu)^a e^p = (e - mu)^(a-1) (e^(p+1) - mu e^p), around the chemical potential of each temperature *)
CenterClauses(e) == <<
   <<"warm_level", \E t \in 1..Len(e.mu) : e.mu[t] # e.mu[1] \/ Abs(e.mu[t] - e.ef) > 100>>,
   <<"moments_around_the_chemical_potential", \A t \in 1..Len(e.mu) : \A p \in 1..3 : \A a \in 2..(5 - p) :
        LET x == e.I[t][p + 1][a - 1] - MulS(e.mu[t], e.I[t][p][a - 1]) IN Near(e.I[t][p][a], x, 30 + Abs(e.I[t][p][a - 1]) \div 5000)>>,
   <<"count", \A t \in 1..Len(e.mu) : e.I[t][1][1] > 0>> >>
CoefClauses(e) == LET L == e.L IN <<
   <<"conductivity", e.cond = L[1]>>,
   <<"peltier", e.pel = Peltier(L)>>,
   <<"seebeck", e.seeb = SeebeckT(L)>>,
   <<"thermal_conductivity", e.kap = KappaT(L)>>,
   <<"hall", e.hall = HallR(L[1], e.s3)>>,
   <<"batches", e.batches>>,
   <<"arguments_unchanged", e.same>> >>
FreeClauses(e) == <<
   <<"shapes", e.shapes>>,
   <<"bands", \A q \in 1..Len(e.ks) : LET all == FreeAll(e.ks[q], e.nbs) n == IF e.limit = 0 THEN Len(all) ELSE Min2(e.limit, Len(all)) IN
        e.bands[q] = [i \in 1..n |-> all[i][1]]>>,
   <<"same_bands_everywhere", e.bands = e.bands1 /\ e.bands = e.bands2>>,
   <<"gradients", \A q \in 1..Len(e.ks) : LET all == FreeAll(e.ks[q], e.nbs) x == [i \in 1..Len(e.bands[q]) |-> <<e.bands[q][i], e.grads[q][i]>>] IN
        \A i \in 1..Len(x) : Count(x, x[i]) <= Count(all, x[i])>>,
   <<"gradients_agree", e.grads = e.grads2>>,
   <<"hessians", \A q \in 1..Len(e.ks) : Len(e.hess[q]) = Len(e.bands[q]) /\ \A i \in 1..Len(e.hess[q]) : e.hess[q][i] = Eye(3)>> >>
(* what is refused *)
RejectClauses(e) == << <<"rejected", e.raised = e.want>> >>
Clauses(e) ==
  IF ~e.ok THEN << <<"raised", FALSE>> >>
  ELSE CASE e.k = "integral" -> IntegralClauses(e)
         [] e.k = "warmint" -> WarmClauses(e)
         [] e.k = "center" -> CenterClauses(e)
         [] e.k = "freetb" -> FreeTbClauses(e)
         [] e.k = "coef" -> CoefClauses(e)
         [] e.k = "free" -> FreeClauses(e)
         [] e.k = "reject" -> RejectClauses(e)
         [] OTHER -> << <<"unknown event", FALSE>> >>
Verdict == Judge(Clauses(Trace[l]))
=============================================================================
