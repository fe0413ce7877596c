----------------------------- MODULE TraceModels -----------------------------
EXTENDS Models, TraceBase
M(e) == MkModel(e.nb, e.H)
S(e) == MkModel(e.snb, e.S)
Idx(s) == 1..Len(s)
Ascending(rows) == \A i \in Idx(rows) : \A j \in 1..(Len(rows[i]) - 1) : rows[i][j] <= rows[i][j + 1]
SumsOf(bs, i) == TLCEval([j \in Idx(bs) |-> bs[j][i]])

(* ---- H(k) and the bands at k = q/4 *)
EvalClauses(e) ==
  LET m == M(e) IN <<
   <<"hamiltonian", Len(e.Hk) = Len(e.q) /\ \A i \in Idx(e.q) : e.Hk[i] = HK(m, e.q[i])>>,
   <<"hermitian", \A i \in Idx(e.q) : IsHermitian(e.Hk[i])>>,
   <<"bands", \A i \in Idx(e.q) : SumsOf(e.bs, i) = BandSums(m, e.q[i])>>,
   <<"bands_ascending", Ascending(e.bands)>>,
   <<"band_count", e.n = Bands(m) /\ e.d = Dim(m)>> >>
(* ---- with an overlap: e.det[i] is det S(k), e.bs are the power sums of det S(k) * E *)
GEvalClauses(e) ==
  LET m == M(e) s == S(e) IN <<
   <<"hamiltonian", \A i \in Idx(e.q) : e.Hk[i] = HK(m, e.q[i])>>,
   <<"overlap", \A i \in Idx(e.q) : e.Sk[i] = HK(s, e.q[i]) /\ e.det[i] = SDet(s, e.q[i])>>,
   <<"bands", \A i \in Idx(e.q) : SumsOf(e.bs, i) = GenBandSums(m, s, e.q[i])>>,
   <<"bands_ascending", Ascending(e.bands)>> >>
(* ---- at general k: phases from a table with f = 1; observed values in the same fixed point *)
TableClauses(e) ==
  LET m == M(e) tol == e.tol IN <<
   <<"hamiltonian_table", \A i \in Idx(e.ph) : Near(e.Hk[i], HTab(m, e.ph[i], e.f), tol)>>,
   <<"derivative_table", \A i \in Idx(e.ph) : \A a \in 1..Dim(m) : Near(e.dHk[i][a], DHTab(m, e.ph[i], a), tol * 4)>>,
   <<"second_derivative_table", \A i \in Idx(e.ph) : \A a, c \in 1..Dim(m) :
        Near(e.ddHk[i][a][c], DDHTab(m, e.ph[i], a, c), tol * 16)>>,
   <<"trace_of_bands", \A i \in Idx(e.ph) : Abs(e.tr[i] - GMTr(HTab(m, e.ph[i], e.f))[1]) <= tol * Bands(m)>>,
   <<"bands_ascending", Ascending(e.bands)>> >>
(* ---- gradients: e.gs[a][j][i] = sum_b E_b^(j-1) dE_b/dk_a / 2 pi at q[i] *)
GradClauses(e) ==
  LET m == M(e) IN <<
   <<"gradients", \A i \in Idx(e.q) : \A a \in 1..Dim(m) : SumsOf(e.gs[a], i) = GradSums(m, e.q[i], a)>>,
   <<"bands", \A i \in Idx(e.q) : SumsOf(e.bs, i) = BandSums(m, e.q[i])>>,
   <<"bands_ascending", Ascending(e.bands)>> >>
GGradClauses(e) ==
  LET m == M(e) s == S(e) IN <<
   <<"gradients", \A i \in Idx(e.q) : \A a \in 1..Dim(m) : SumsOf(e.gs[a], i) = GenGradSums(m, s, e.q[i], a)>>,
   <<"overlap", \A i \in Idx(e.q) : e.det[i] = SDet(s, e.q[i])>>,
   <<"bands", \A i \in Idx(e.q) : SumsOf(e.bs, i) = GenBandSums(m, s, e.q[i])>> >>
GHessClauses(e) ==
  LET m == M(e) s == S(e) IN <<
   <<"hessians", \A i \in Idx(e.q) : \A a, c \in 1..Dim(m) : SumsOf(e.hs[a][c], i) = GenHessSums(m, s, e.q[i], a, c)>>,
   <<"gradients", \A i \in Idx(e.q) : \A a \in 1..Dim(m) : SumsOf(e.gs[a], i) = GenGradSums(m, s, e.q[i], a)>>,
   <<"overlap", \A i \in Idx(e.q) : e.det[i] = SDet(s, e.q[i])>>,
   <<"bands", \A i \in Idx(e.q) : SumsOf(e.bs, i) = GenBandSums(m, s, e.q[i])>> >>
(* ---- hessians: e.hs[a][c][j][i] = sum_b E^(j-1) hess + (j-1) E^(j-2) d_a E d_c E, over (2 pi)^2 *)
HessClauses(e) ==
  LET m == M(e) IN <<
   <<"hessians", \A i \in Idx(e.q) : \A a, c \in 1..Dim(m) : (~e.degenerate \/ a = c) => SumsOf(e.hs[a][c], i) = HessSums(m, e.q[i], a, c)>>,
   <<"gradients", \A i \in Idx(e.q) : \A a \in 1..Dim(m) : SumsOf(e.gs[a], i) = GradSums(m, e.q[i], a)>>,
   <<"bands", \A i \in Idx(e.q) : SumsOf(e.bs, i) = BandSums(m, e.q[i])>>,
   <<"bands_ascending", Ascending(e.bands)>> >>
RECURSIVE Rising(_)
Rising(X) == IF X = {} THEN <<>> ELSE LET m == MinOf(X) IN <<m>> \o Rising(X \ {m})
(* ---- many bands E_b(k), each a series of its own, mixed by a constant unitary matrix: the bands are the E_b in order, *)
(* and the derivatives of bands which are equal at a point are summed                                                   *)
WideClauses(e) ==
  LET nb == Len(e.h[1])
      one == TLCEval([b \in 1..nb |-> MkModel(e.nb, TLCEval([x \in Idx(e.nb) |-> << <<e.h[x][b]>> >>]))])
      E == TLCEval([i \in Idx(e.q) |-> TLCEval([b \in 1..nb |-> HK(one[b], e.q[i])[1][1][1]])])
      levels == TLCEval([i \in Idx(e.q) |-> Rising(Range1(E[i]))])
      total(i, x, f(_)) == SumSeq([b \in 1..nb |-> IF E[i][b] = x THEN f(b) ELSE 0])
  IN <<
   <<"shape", e.sh>>,
   <<"bands", \A i \in Idx(e.q) : SameMultiset(e.bands[i], E[i])>>,
   <<"bands_ascending", Ascending(e.bands)>>,
   <<"gradients", \A i \in Idx(e.gr) : e.gr[i] = [x \in Idx(levels[i]) |-> [a \in Idx(e.nb[1]) |-> total(i, levels[i][x], LAMBDA b: DHK(one[b], e.q[i], a)[1][1][1])]]>>,
   <<"second_derivatives", \A i \in Idx(e.he) : e.he[i] = [x \in Idx(levels[i]) |-> [a \in Idx(e.nb[1]) |-> total(i, levels[i][x], LAMBDA b: DDHK(one[b], e.q[i], a, a)[1][1][1])]]>> >>
(* ---- coupling to displacements, with known eigenvectors: V has orthogonal columns of +-1, basis function a is moved by s[a], *)
(* g_ij = (v_i(k1) - v_j(k2)) <i k1 | j k2>, up to the phases of the states: squared, times n^2 / (2 pi)^2                        *)
RankOf(s, b) == 1 + Cardinality({x \in Idx(s) : s[x] < s[b]})
CouplingClauses(e) ==
  LET n == Len(e.V)
      one == TLCEval([b \in 1..n |-> MkModel(e.nb, TLCEval([x \in Idx(e.nb) |-> << <<e.h[x][b]>> >>]))])
      E == TLCEval([i \in Idx(e.q) |-> TLCEval([b \in 1..n |-> HK(one[b], e.q[i])[1][1][1]])])
      v == TLCEval([i \in Idx(e.q) |-> TLCEval([b \in 1..n |-> [a \in Idx(e.q[1]) |-> DHK(one[b], e.q[i], a)[1][1][1]]])])
      over(x, y, i, j) == GSum([a \in 1..n |-> GMul(IPow(Dot(VSub(e.q[y], e.q[x]), e.s[a])), <<e.V[a][i] * e.V[a][j], 0>>)])
      norm2(z) == z[1] * z[1] + z[2] * z[2]
  IN <<
   <<"bands", \A i \in Idx(e.q) : \A b \in 1..n : e.bands[i][RankOf(E[i], b)] = E[i][b]>>,
   <<"velocities", \A i \in Idx(e.q) : \A b \in 1..n : \A a \in Idx(e.q[1]) : e.v[i][a][RankOf(E[i], b)] = v[i][b][a]>>,
   <<"couplings", Len(e.g) = Len(e.k1) /\ \A x \in Idx(e.k1) : Len(e.g[x]) = Len(e.k2) /\ \A y \in Idx(e.k2) : \A a \in Idx(e.q[1]) : \A i, j \in 1..n :
       LET d == v[e.k1[x]][i][a] - v[e.k2[y]][j][a] IN
       e.g[x][y][a][RankOf(E[e.k1[x]], i)][RankOf(E[e.k2[y]], j)] = d * d * norm2(over(e.k1[x], e.k2[y], i, j))>> >>
(* ---- representations of the parameters *)
ReprClauses(e) ==
  LET m == M(e) x == Expand(m, e.ops) IN <<
   <<"hamiltonian", \A i \in Idx(e.q) : e.Hk[i] = HK(x, e.q[i])>>,
   <<"derivative", \A i \in Idx(e.q) : \A a \in 1..Dim(m) : e.dHk[i][a] = DHK(x, e.q[i], a)>>,
   <<"second_derivative", \A i \in Idx(e.q) : \A a, c \in 1..Dim(m) : e.ddHk[i][a][c] = DDHK(x, e.q[i], a, c)>>,
   <<"coefficients_kept", e.pc = e.H>>,
   <<"bands", \A i \in Idx(e.q) : SumsOf(e.bs, i) = BandSums(x, e.q[i])>> >>
(* ---- editing histories: e.cmds, with the observed model and power sums after each command *)
Do(m, c) == CASE c.c = "permute" -> Permute(m, c.ord)
              [] c.c = "transform" -> Transform(m, c.B)
              [] c.c = "scale" -> ScaleBy(m, c.f)
              [] c.c = "shift" -> Shift(m, c.x)
              [] c.c = "limit" -> LimitLength(m, c.l2)
              [] c.c = "cleanup" -> Cleanup(m, c.n2)
              [] c.c = "add" -> AddNeighbors(m, c.new)
              [] c.c = "readd" -> m
              [] c.c = "double" -> DirectSum(m, m)
              [] OTHER -> m
RECURSIVE States(_, _)
States(m, cmds) == IF cmds = <<>> THEN <<>> ELSE
    LET n == Do(m, Head(cmds)) IN <<n>> \o States(n, Tail(cmds))
HistClauses(e) ==
  LET st == States(M(e), e.cmds) IN <<
   <<"one_observation_each", Len(e.obs) = Len(st)>>,
   <<"neighbors", \A i \in Idx(st) : e.obs[i].nb = st[i].nb>>,
   <<"coefficients", \A i \in Idx(st) : e.obs[i].H = st[i].H>>,
   <<"bands", \A i \in Idx(st) : \A x \in Idx(e.q) : SumsOf(e.obs[i].bs, x) = BandSums(st[i], e.q[x])>>,
   <<"removed_count", \A i \in Idx(st) : e.cmds[i].c \in {"limit", "cleanup"} =>
        e.obs[i].removed = Len((IF i = 1 THEN M(e) ELSE st[i - 1]).nb) - Len(st[i].nb)>>,
   <<"others_untouched", \A i \in Idx(st) : e.obs[i].untouched>> >>
(* ---- the shortest n neighbors *)
CountClauses(e) ==
  LET m == M(e) o == MkModel(e.onb, e.oH) IN <<
   <<"count", Len(o.nb) = Min2(e.n, Len(m.nb)) /\ e.removed = Len(m.nb) - Len(o.nb)>>,
   <<"subset", \A i \in Idx(o.nb) : \E j \in Idx(m.nb) : m.nb[j] = o.nb[i] /\ m.H[j] = o.H[i]>>,
   <<"distinct", AllDistinct(o.nb)>>,
   <<"shortest", \A i \in Idx(o.nb) : \A j \in Idx(m.nb) : m.nb[j] \notin Range1(o.nb) => Norm2(o.nb[i]) <= Norm2(m.nb[j])>>,
   <<"zero_first", o.nb[1] = Zero(Dim(m))>> >>
(* ---- normalization: the bands stay, H(0) becomes diagonal, S(0) becomes 1; blocks stay blocks *)
DiagFix(A) == \A i, j \in Idx(A) : i # j => A[i][j] = <<0, 0>>
NormClauses(e) ==
  LET m == M(e) s == S(e) IN <<
   <<"bands_kept", \A i \in Idx(e.q) : SumsOf(e.bs, i) = GenBandSums(m, s, e.q[i]) /\ e.det[i] = SDet(s, e.q[i])>>,
   <<"diagonal_at_zero", DiagFix(e.H0)>>,
   <<"overlap_one_at_zero", e.S0 = GMEye(Bands(m))>>,
   <<"neighbors_kept", e.onb = e.nb>> >>
BlockClauses(e) ==
  LET n == Bands(M(e)) IN <<
   <<"bands_kept", \A i \in Idx(e.q) : SumsOf(e.bs, i) = BandSums(M(e), e.q[i])>>,
   <<"blocks_kept", \A x \in Idx(e.oH) : \A i, j \in 1..n : ((i <= e.block) # (j <= e.block)) => e.oH[x][i][j] = <<0, 0>> >>,
   <<"block_bands_kept", \A i \in Idx(e.q) : SumsOf(e.bs1, i) =
        PowSums(GMat(e.block, e.block, LAMBDA a, b: HK(M(e), e.q[i])[a][b]), e.block)>>,
   <<"diagonal_at_zero", DiagFix(e.H0)>> >>
(* ---- random changes: every parameter is changed by two normal distributed numbers (the root mean square is sqrt(2) sigma = 141 %), *)
(* with e.keep those which are zero stay zero.  The overlap is only changed if asked for.                                           *)
ChangedOk(p, on, keep) == \A x \in Idx(p.zeros) : \A y \in Idx(p.zeros[x]) : p.changed[x][y] = IF on /\ ~(keep /\ p.zeros[x][y] = 1) THEN 1 ELSE 0
RandomClauses(e) == <<
   <<"changed_parameters", ChangedOk(e.H, TRUE, e.keep)>>,
   <<"size_of_changes", e.H.count >= 12 => e.H.size \in (141 * 4) \div 10..(141 * 2)>>,
   <<"overlap_only_if_asked_for", ChangedOk(e.S, e.rs, e.keep)>>,
   <<"size_of_changes_of_overlap", (e.rs /\ e.S.count >= 12) => e.S.size \in (141 * 4) \div 10..(141 * 2)>>,
   <<"neighbors_unchanged", e.nbsame>>, <<"copies_unchanged", e.copysame>> >>
DsumClauses(e) == <<
   <<"other_neighbors_refused", e.refused = e.other>>,
   <<"direct_sum", ~e.refused => e.onb = e.nb /\ e.oH = [x \in Idx(e.nb) |-> GDirectSum(e.H[x], e.H2[x])]>>,
   <<"arguments_unchanged", e.same>> >>
(* ---- supercells: e.bs[j][i] are the power sums of the bands of the supercell *)
SupercellClauses(e) ==
  LET m == M(e) F == Folded(m, e.L, e.q, Len(e.bs)) IN <<
   <<"band_count", e.n = Bands(m) * Abs(Det(e.L))>>,
   <<"folded_bands", e.bs = F>>,
   <<"superlattice_period", e.bs2 = F>>,
   <<"neighbors_in_superlattice", \A r \in Range1(e.onb) : InLattice(e.L, r)>>,
   <<"input_untouched", e.untouched>> >>
(* ---- large supercells of many bands: the k points which fold together are the quarters G with L^T G = 0 mod 4 *)
RECURSIVE Listed(_)
Listed(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o Listed(X \ {x})
FoldPoints(L) == {G \in [1..Len(L) -> 0..3] : \A j \in Idx(L) : SumSeq([i \in Idx(L) |-> L[i][j] * G[i]]) % 4 = 0}
WideCellClauses(e) ==
  LET nb == Len(e.h[1])
      one == TLCEval([b \in 1..nb |-> MkModel(e.nb, TLCEval([x \in Idx(e.nb) |-> << <<e.h[x][b]>> >>]))])
      G == TLCEval(Listed(FoldPoints(e.L)))
      want(i) == TLCEval([z \in 1..(Len(G) * nb) |-> HK(one[1 + ((z - 1) % nb)], VAdd(e.q[i], G[1 + ((z - 1) \div nb)]))[1][1][1]])
  IN <<
   <<"shape", Len(G) = Abs(Det(e.L)) /\ e.n = nb * Len(G) /\ e.sh>>,
   <<"folded_bands", \A i \in Idx(e.q) : SameMultiset(e.bands[i], want(i))>>,
   <<"bands_ascending", Ascending(e.bands)>>,
   <<"neighbors_in_superlattice", \A r \in Range1(e.onb) : InLattice(e.L, r)>>,
   <<"input_untouched", e.untouched>> >>
Clauses(e) ==
  IF ~e.ok THEN << <<"raised", FALSE>> >>
  ELSE CASE e.k = "eval" -> EvalClauses(e)
         [] e.k = "geval" -> GEvalClauses(e)
         [] e.k = "table" -> TableClauses(e)
         [] e.k = "grad" -> GradClauses(e)
         [] e.k = "ggrad" -> GGradClauses(e)
         [] e.k = "ghess" -> GHessClauses(e)
         [] e.k = "hess" -> HessClauses(e)
         [] e.k = "wide" -> WideClauses(e)
         [] e.k = "coupling" -> CouplingClauses(e)
         [] e.k = "repr" -> ReprClauses(e)
         [] e.k = "hist" -> HistClauses(e)
         [] e.k = "count" -> CountClauses(e)
         [] e.k = "norm" -> NormClauses(e)
         [] e.k = "block" -> BlockClauses(e)
         [] e.k = "random" -> RandomClauses(e)
         [] e.k = "dsum" -> DsumClauses(e)
         [] e.k = "widecell" -> WideCellClauses(e)
         [] e.k = "supercell" -> SupercellClauses(e)
         [] OTHER -> << <<"unknown event", FALSE>> >>
Verdict == Judge(Clauses(Trace[l]))
=============================================================================
