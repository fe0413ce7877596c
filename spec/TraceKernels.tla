---------------------------- MODULE TraceKernels ----------------------------
EXTENDS Kernels, TraceBase
(* products of lists of matrices: e.args[m][i] is matrix i of argument m (a single one for a list of length 1) *)
Pick(a, i) == IF Len(a) = 1 THEN a[1] ELSE a[i]
ProductClauses(e) == << <<"values", \A i \in 1..Len(e.out) : e.out[i] = FoldG(e.kind, [m \in 1..Len(e.args) |-> Pick(e.args[m], i)])>>,
   <<"count", Len(e.out) = e.count>>, <<"arguments_unchanged", e.same>> >>
MergeClauses(e) == <<
   <<"shape", e.oshape = SubSeq(e.shape, 1, e.start) \o <<LET s == SubSeq(e.shape, e.start + 1, Min2(e.start + e.cnt, Len(e.shape))) IN
                 IF Len(s) = 1 THEN s[1] ELSE IF Len(s) = 2 THEN s[1] * s[2] ELSE IF Len(s) = 3 THEN s[1] * s[2] * s[3] ELSE s[1] * s[2] * s[3] * s[4]>> \o SubSeq(e.shape, e.start + e.cnt + 1, Len(e.shape))>>,
   <<"order", e.flat>> >>
(* ---- eigenproblems with known eigenvectors *)
EigClauses(e) == <<
   <<"input", \A m \in 1..Len(e.H) : IsEigen(e.H[m], e.S[m], e.V[m], e.c[m], e.D[m])>>,
   <<"eigenvalues", \A m \in 1..Len(e.H) : SameMultiset(e.la[m], e.D[m])>>,
   <<"ascending", \A m \in 1..Len(e.H) : \A i \in 1..(Len(e.D[m]) - 1) : e.la[m][i] <= e.la[m][i + 1]>>,
   <<"eigenvalues_only", e.vals = e.la>>,
   <<"vectors", e.residual <= 20 /\ e.norm <= 20>>,
   <<"arguments_unchanged", e.same>> >>
(* a spectrum of eigenvalues D: position i of the ascending list belongs to the eigenvalue la[i] *)
IndexOf(D, v) == CHOOSE j \in 1..Len(D) : D[j] = v
GradClauses(e) == <<
   <<"input", \A m \in 1..Len(e.H) : IsEigen(e.H[m], e.S[m], e.V[m], e.c[m], e.D[m])>>,
   <<"eigenvalues", \A m \in 1..Len(e.H) : SameMultiset(e.la[m], e.D[m])>>,
   \* the derivatives of a degenerate set, summed
   <<"gradients", \A m \in 1..Len(e.H) : \A n \in 1..Len(e.dH[m]) : \A x \in Range1(e.D[m]) :
        LET want == SumOver({j \in 1..Len(e.D[m]) : e.D[m][j] = x}, LAMBDA j: First(e.V[m], e.D[m], e.dH[m][n], e.dS[m][n], j))
            got == SumOver({i \in 1..Len(e.la[m]) : e.la[m][i] = x}, LAMBDA i: e.g[m][n][i])
        IN Abs(e.c[m] * got - 10000 * want) <= 40 * e.c[m]>>,
   <<"residual", e.residual <= 20>>,
   <<"arguments_unchanged", e.same>> >>
HessClauses(e) == <<
   <<"input", \A m \in 1..Len(e.H) : IsEigen(e.H[m], GMEye(Len(e.H[m])), [i \in 1..Len(e.H[m]) |-> e.V[m][i]], 1, e.D[m])
                                     \/ GMMul(GMMul(GMDag(e.V[m]), e.H[m]), e.V[m]) = Diag(e.D[m], e.c[m] * e.hs)>>,
   <<"eigenvalues", \A m \in 1..Len(e.H) : SameMultiset(e.la[m], e.D[m])>>,
   <<"gradients", \A m \in 1..Len(e.H) : \A n \in 1..Len(e.dH[m]) : \A x \in Range1(e.D[m]) :
        LET P == InBasis(e.V[m], e.dH[m][n]) G == {j \in 1..Len(e.D[m]) : e.D[m][j] = x}
            want == SumOver(G, LAMBDA j: P[j][j][1])
            got == SumOver({i \in 1..Len(e.la[m]) : e.la[m][i] = x}, LAMBDA i: e.g[m][n][i])
        IN Abs(e.c[m] * got - 1000 * want) <= 40 * e.c[m]>>,
   \* in a degenerate set the gradients are the eigenvalues of the perturbation within it: their squares add up to the trace of its square
   <<"degenerate_gradients", \A m \in 1..Len(e.H) : \A n \in 1..Len(e.dH[m]) : \A x \in Range1(e.D[m]) :
        LET P == InBasis(e.V[m], e.dH[m][n]) G == {j \in 1..Len(e.D[m]) : e.D[m][j] = x}
            want == SumOver(G, LAMBDA j: SumOver(G, LAMBDA k: GMul(P[j][k], P[k][j])[1]))
            sq == SumOver({i \in 1..Len(e.la[m]) : e.la[m][i] = x}, LAMBDA i: e.g2[m][n][i])
        IN Abs(e.c[m] * e.c[m] * sq - 1000 * want) <= 100 * e.c[m] * e.c[m]>>,
   <<"hessians", \A m \in 1..Len(e.H) : \A p, q \in 1..Len(e.dH[m]) : \A x \in Range1(e.D[m]) :
        LET D == e.D[m] c == e.c[m] G == {j \in 1..Len(D) : D[j] = x}
            P == InBasis(e.V[m], e.dH[m][p]) Q == InBasis(e.V[m], e.dH[m][q]) R == InBasis(e.V[m], e.ddH[m][p][q])
            gap == c * c * Gap(D, CHOOSE j \in G : TRUE)
            want == SumOver(G, LAMBDA j: Second(c, D, P, Q, R, j))
            got == SumOver({i \in 1..Len(e.la[m]) : e.la[m][i] = x}, LAMBDA i: e.h[m][p][q][i])
        \* mixed derivatives of a degenerate set have no meaning of their own: the basis depends on the direction
        IN (Cardinality(G) = 1 \/ p = q) => Abs(gap * got - 1000 * want) <= 4 * Abs(gap)>>,
   <<"arguments_unchanged", e.same>> >>
(* ---- positive definite systems *)
SolveClauses(e) == <<
   <<"input", GMMul(e.A, e.x) = e.b>>,
   <<"solution", e.out = e.x>>,
   <<"arguments_unchanged", e.same>> >>
StepsClauses(e) == << <<"iterations", e.calls <= e.limit + 3>>, <<"arguments_unchanged", e.same>> >>
(* ---- *)
CloudClauses(e) == <<
   <<"zero_iff_equal", (e.dist = 0) <=> SameMultiset(e.p, e.q)>>,
   <<"lower_bound", Len(e.p[1]) = 1 => e.dist >= 1000 * SortedCost(Map(e.p, LAMBDA v: v[1]), Map(e.q, LAMBDA v: v[1])) - 2>>,
   <<"permuted", SameMultiset(e.p, e.q) => e.permuted = 0>> >>
BallClauses(e) == <<
   <<"points", Range1(e.pts) = Ball(e.A, e.m, e.r2)>>,
   <<"once", AllDistinct(e.pts)>> >>
QuadClauses(e) == <<
   <<"value", \A i \in 1..Len(e.a) : LET w == IF e.kind = "df" THEN Mean(e.a[i], MomentD) ELSE Mean(e.a[i], MomentF) IN
        Abs(e.out[i] - w) <= 3 * Len(e.a[i]) + 3>>,
   <<"shape", e.shapeok>> >>
RandomClauses(e) == << <<"hermitian", e.herm = 0>>, <<"unitary", e.unit <= 1>>, <<"different", e.diff>> >>
Clauses(e) ==
  IF ~e.ok THEN << <<"raised", FALSE>> >>
  ELSE CASE e.k = "product" -> ProductClauses(e)
         [] e.k = "merge" -> MergeClauses(e)
         [] e.k = "eig" -> EigClauses(e)
         [] e.k = "grad" -> GradClauses(e)
         [] e.k = "hess" -> HessClauses(e)
         [] e.k = "solve" -> SolveClauses(e)
         [] e.k = "steps" -> StepsClauses(e)
         [] e.k = "cloud" -> CloudClauses(e)
         [] e.k = "ball" -> BallClauses(e)
         [] e.k = "quad" -> QuadClauses(e)
         [] e.k = "random" -> RandomClauses(e)
         [] OTHER -> << <<"unknown event", FALSE>> >>
Verdict == Judge(Clauses(Trace[l]))
=============================================================================
