------------------------------- MODULE RepsMC -------------------------------
(* The symmetrization as specified is a linear map, so it is checked on all   *)
(* unit matrices: it is an orthogonal projection onto the operators that have *)
(* the symmetry, and the law of transformation of H(k) follows.               *)
EXTENDS Reps
CONSTANT KSet
VARIABLES cfg, e
G1 == [ops |-> <<<<<<1>>>>>>, inv |-> TRUE]
G3 == [ops |-> <<Eye(3), <<<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>>>>>>, inv |-> TRUE]
G3m == [ops |-> <<Eye(3), <<<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>>>>>>, inv |-> FALSE]
R4 == <<<<0, 1>>, <<-1, 0>>>>
G2 == [ops |-> <<Eye(2), R4, MMul(R4, R4), MMul(R4, MMul(R4, R4))>>, inv |-> FALSE]
Sr(g) == [U |-> [i \in 1..Len(g.ops) |-> <<<<<<1, 0>>>>>>], den |-> 1, split |-> 1]
Pr(g) == [U |-> [i \in 1..Len(g.ops) |-> RInt(g.ops[i])], den |-> 1, split |-> 0]
Orb(r, pos, at) == [r |-> r, pos |-> pos, at |-> at]
(* neighbors in units of 1/2 *)
Cfgs == <<
  [g |-> G1, nb |-> <<<<0>>, <<2>>, <<4>>>>, orbs |-> <<Orb(Sr(G1), <<0>>, 0), Orb(Pr(G1), <<-1>>, 1)>>],
  [g |-> G1, nb |-> <<<<0>>, <<-2>>, <<6>>>>, orbs |-> <<Orb(Sr(G1), <<0>>, 0), Orb(Sr(G1), <<1>>, 1)>>],
  [g |-> G2, nb |-> <<<<0, 0>>, <<2, 0>>, <<0, 2>>, <<2, 2>>, <<2, -2>>>>, orbs |-> <<Orb(Sr(G2), <<0, 0>>, 0), Orb(Pr(G2), <<1, 1>>, 1)>>],
  [g |-> G3, nb |-> <<<<0, 0, 0>>, <<2, 2, 0>>, <<2, -2, 0>>, <<4, 2, 0>>>>, orbs |-> <<Orb(Sr(G3), <<0, 0, 0>>, 0), Orb(Sr(G3), <<1, 0, 0>>, 1)>>],
  [g |-> G3, nb |-> <<<<0, 0, 0>>, <<2, 2, 0>>, <<2, -2, 0>>>>, orbs |-> <<Orb(Pr(G3), <<0, 0, 0>>, 0), Orb(Sr(G3), <<0, 0, 0>>, 3)>>],
  [g |-> G3m, nb |-> <<<<0, 0, 0>>, <<0, 2, 0>>, <<2, 2, 2>>, <<2, -2, -2>>>>, orbs |-> <<Orb(Pr(G3m), <<0, 0, 0>>, 0), Orb(Sr(G3m), <<1, 1, 1>>, 3)>>]>>
Size(c) == LET o == c.orbs[Len(c.orbs)] IN o.at + RDim(o.r)
(* a state: one configuration and one unit matrix <<neighbor, row, column, re/im>> *)
Init == cfg \in 1..Len(Cfgs) /\ e = <<1, 1, 1, 1>>
Next == /\ e = <<1, 1, 1, 1>> /\ cfg' = cfg
        /\ LET c == Cfgs[cfg] IN e' \in (1..Len(c.nb)) \X (1..Size(c)) \X (1..Size(c)) \X {1, 2}
C == Cfgs[cfg]
Unit(x) == TLCEval([i \in 1..Len(C.nb) |-> TLCEval([a \in 1..Size(C) |-> TLCEval([b \in 1..Size(C) |->
              IF <<i, a, b>> = <<x[1], x[2], x[3]>> THEN (IF x[4] = 1 THEN <<1, 0, 0, 0>> ELSE <<0, 0, 1, 0>>) ELSE CZ])])])
BlockOf(a) == CHOOSE o \in 1..Len(C.orbs) : C.orbs[o].at < a /\ a <= C.orbs[o].at + RDim(C.orbs[o].r)
(* times 2 Order *)
Mean(H) == LET H2 == HermZero(C.nb, H) IN
   TLCEval([i \in 1..Len(C.nb) |->
     LET B == TLCEval([p \in 1..Len(C.orbs) |-> TLCEval([q \in 1..Len(C.orbs) |-> BlockMean(C.g, C.nb, H2, i, C.orbs[p], C.orbs[q])])])
     IN TLCEval([a \in 1..Size(C) |-> TLCEval([b \in 1..Size(C) |-> B[BlockOf(a)][BlockOf(b)][a - C.orbs[BlockOf(a)].at][b - C.orbs[BlockOf(b)].at]])])])
H0 == Unit(e)
PH == Mean(H0)
F == 2 * Order(C.g)
Idempotent == Mean(PH) = [i \in 1..Len(C.nb) |-> CMScale(F, PH[i])]
IsZeroNb(i) == \A a \in 1..Len(C.nb[i]) : C.nb[i][a] = 0
HermitianZero == \A i \in 1..Len(C.nb) : IsZeroNb(i) => PH[i] = CMDag(PH[i])
(* every operation leaves the result as it is *)
Symmetric == \A i \in 1..Len(C.nb), p, q \in 1..Len(C.orbs), x \in SignedOps(C.g) :
   LET o1 == C.orbs[p] o2 == C.orbs[q] n == RDim(o1.r) m == RDim(o2.r)
       j == IndexOf(C.nb, ImageOf(C.g, x, C.nb[i], o1.pos, o2.pos))
       B == SubMat(PH[i], o1.at, n, o2.at, m) IN
   IF j[1] = 0 THEN B = CMZero(n, m)
   ELSE LET M == IF j[2] THEN CMDag(SubMat(PH[j[1]], o2.at, m, o1.at, n)) ELSE SubMat(PH[j[1]], o1.at, n, o2.at, m)
        IN UMUd(RepMat(o1.r, x), B, RepMat(o2.r, x)) = M
(* orthogonal in the full list of vectors (0 counts once, the others twice): <H, P H> = <P H, P H> *)
Inner(A, B) == SumSeq([i \in 1..Len(C.nb) |-> (IF IsZeroNb(i) THEN 1 ELSE 2) * SumSeq([a \in 1..Size(C) |-> SumSeq([b \in 1..Size(C) |->
                   A[i][a][b][1] * B[i][a][b][1] + A[i][a][b][3] * B[i][a][b][3]])])])
Orthogonal == F * Inner(H0, PH) = Inner(PH, PH)
(* H(S^-T k) = U H(k) U^+ e^{2 pi i (k - S^-T k)(r2 - r1)} *)
ApplyLaw == \A x \in SignedOps(C.g), q \in [1..Len(C.nb[1]) -> KSet] : LET k == [a \in 1..Len(C.nb[1]) |-> q[a] + a - 1] IN
   (\A p, s \in 1..Len(C.orbs) : PhaseOk(C.g, x, k, 2, C.orbs[p], C.orbs[s])) =>
   LET Hk == CHK(C.nb, PH, k, 2) Hs == CHK(C.nb, PH, DualK(C.g, x, k), 2) IN
   \A p, s \in 1..Len(C.orbs) : LET o1 == C.orbs[p] o2 == C.orbs[s] IN
      AppliedBlock(C.g, x, k, 2, Hk, o1, o2) = SubMat(Hs, o1.at, RDim(o1.r), o2.at, RDim(o2.r))
Reps_ == e = <<1, 1, 1, 1>> => \A p \in 1..Len(C.orbs) : IsRep(C.g, C.orbs[p].r)
=============================================================================
