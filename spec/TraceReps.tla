------------------------------ MODULE TraceReps ------------------------------
(* Judges recorded representations and symmetrizations.                       *)
EXTENDS Reps, TraceBase
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt
Grp(e) == [ops |-> e.ops, inv |-> e.inv]
R_(x) == [U |-> x.U, den |-> x.den, split |-> x.split]
Orbs(e) == Map(e.orbs, LAMBDA o: [r |-> R_(o), pos |-> o.pos, at |-> o.at])
CIs(H) == Map(H, LAMBDA M: CInt(M))
FSub(A, i, n, j, m) == TLCEval([a \in 1..n |-> TLCEval([b \in 1..m |-> A[i + a][j + b]])])
NBlock(F, X, o1, o2, den) == NearM(FSub(F, o1.at, RDim(o1.r), o2.at, RDim(o2.r)), X, den * o1.r.den * o2.r.den)

(* k = "hsym": both implementations against the group mean *)
HSym(e) == LET g == Grp(e) orbs == Orbs(e) H2 == HermZero(e.nb, CIs(e.H)) F == 2 * Order(g) IN
  <<<<"returned", e.ok>>,
    <<"mean", e.ok => \A i \in 1..Len(e.nb), p, q \in 1..Len(orbs) :
          LET X == BlockMean(g, e.nb, H2, i, orbs[p], orbs[q]) IN
          \A v \in 1..Len(e.out) : NBlock(e.out[v][i], X, orbs[p], orbs[q], F)>>>>
(* k = "happly" *)
HApply(e) == LET g == Grp(e) orbs == Orbs(e) x == <<e.s, e.sign>> IN
  <<<<"returned", e.ok>>,
    <<"transformed", e.ok => \A p, q \in 1..Len(orbs) :
        NBlock(e.out, AppliedBlock(g, x, e.kq, e.unit, CInt(e.M), orbs[p], orbs[q]), orbs[p], orbs[q], 1)>>>>
(* k = "hreal": expansion of matrices at symmetry reduced points *)
HReal(e) == LET g == Grp(e) orbs == Orbs(e)
                full == UNION {{DualK(g, x, e.ks[i]) : x \in SignedOps(g)} : i \in 1..Len(e.ks)} IN
  <<<<"returned", e.ok>>,
    <<"points", e.ok => Range1(e.outk) = full /\ AllDistinct(e.outk)>>,
    <<"sources", e.ok => Len(e.order) = Len(e.outk) /\ \A j \in 1..Len(e.outk) : e.order[j] \in 1..Len(e.ks)>>,
    <<"matrices", e.ok => Len(e.out) = Len(e.outk) /\ \A j \in 1..Len(e.outk) :
        \E x \in SignedOps(g) : DualK(g, x, e.ks[e.order[j]]) = e.outk[j] /\
           \A p, q \in 1..Len(orbs) : NBlock(e.out[j], AppliedBlock(g, x, e.ks[e.order[j]], e.unit, CInt(e.Ms[e.order[j]]), orbs[p], orbs[q]), orbs[p], orbs[q], 1)>>>>
(* k = "orbital": the representations of the named orbitals *)
D1 == <<<<-1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 2>>>>
D2 == <<<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 0>>>>
QTr(A, S, B) == MTr(MMul(A, MMul(S, MMul(B, Transp(S)))))
EQuad(S) == <<<<<<2 * QTr(D1, S, D1), 0>>, <<0, 2 * QTr(D1, S, D2)>>>>, <<<<0, 2 * QTr(D2, S, D1)>>, <<6 * QTr(D2, S, D2), 0>>>>>>  \* times 12
PermSign(S) == Det(Map(S, LAMBDA row: Map(row, LAMBDA v: Abs(v))))
OneDim(s, d) == <<<<<<s * d, 0>>>>>>
WantU(name, S, den) == CASE name = "s" -> OneDim(1, den)
                         [] name = "p" -> RScale(den, RInt(S))
                         [] name = "d3" -> RScale(den * Det(S), RInt(S))
                         [] name = "T2" -> RScale(den * PermSign(S), RInt(S))
                         [] name = "A2" -> OneDim(PermSign(S), den)
UAgrees(name, S, U, den) == IF name = "E" THEN RScale(12, U) = RScale(den, EQuad(S)) ELSE U = WantU(name, S, den)
Orbital(e) == <<<<"returned", e.ok>>,
    <<"representation", e.ok => IsRep(Grp(e), R_(e.out))>>,
    <<"orbital", e.ok => \A i \in 1..Len(e.ops) : UAgrees(e.name, e.ops[i], e.out.U[i], e.out.den)>>,
    <<"inversion", e.ok => (e.inv => e.out.split = IF e.odd THEN 0 ELSE RDim(e.out))>>>>
(* k = "diamond": two orbitals on the two sites of the diamond structure.  The operations which take the corner (1, 1, 1) out  *)
(* of its tetrahedron swap the sites.  A common sign of all the orbitals under the separate inversion makes no difference.      *)
Swaps(S) == LET v == MV(S, <<1, 1, 1>>) IN v[1] * v[2] * v[3] < 0
OrbTrace(name, S) == CASE name = "s" -> 1 [] name = "p" -> MTr(S) [] name = "d3" -> Det(S) * MTr(S)
Diamond(e) == LET g == Grp(e)
                  chi(rs, x) == FoldLeft(RAdd, <<0, 0>>, [i \in 1..Len(rs) |-> Character(R_(rs[i]), x)])
                  want(o, x) == IF Swaps(OpMat(g, x)) THEN 0 ELSE 2 * OrbTrace(o.name, OpMat(g, x)) IN
  <<<<"returned", e.ok>>,
    <<"representation", e.ok => \A o \in Range1(e.out) : \A i \in 1..Len(o.reps) : IsRep(g, R_(o.reps[i]))>>,
    <<"names_and_places", e.ok => e.named>>,
    <<"characters", e.ok => \E t \in {FALSE, TRUE} : \A o \in Range1(e.out) : \A x \in SignedOps(g) :
          chi(o.reps, x) = <<(IF t THEN x[2] ELSE 1) * want(o, x), 0>> >>>>
(* k = "rep": an operation on representations *)
SameRep(a, b) == a.U = b.U /\ a.den = b.den /\ a.split = b.split
Rep(e) == LET g == Grp(e) o == R_(e.out) a == R_(e.a) b == R_(e.b) S == SignedOps(g) IN
  <<<<"returned", e.ok>>,
    <<"representation", e.ok => IsRep(g, o)>>,
    <<"split", e.ok => CASE e.op = "sum" -> o.split = a.split + b.split
                         [] e.op = "prod" -> g.inv => o.split = a.split * b.split + (RDim(a) - a.split) * (RDim(b) - b.split)
                         [] e.op = "times" -> o.split = e.n * a.split
                         [] OTHER -> o.split = a.split>>,
    <<"characters", e.ok => \A x \in S : CASE e.op = "sum" -> Character(o, x) = RAdd(Character(a, x), Character(b, x))
                         [] e.op = "prod" -> RMul(<<o.den, 0>>, Character(o, x)) = RMul(Character(a, x), Character(b, x))
                         [] e.op = "times" -> Character(o, x) = RMul(<<e.n, 0>>, Character(a, x))
                         [] OTHER -> Character(o, x) = Character(a, x)>>,
    <<"matrices", e.ok => CASE e.op = "copy" -> SameRep(o, a)
                         [] e.op = "permute" -> \A i \in 1..Len(o.U), p, q \in 1..RDim(o) : o.U[i][p][q] = a.U[i][e.order[p]][e.order[q]]
                         [] e.op = "sum" -> \A i \in 1..Len(o.U) : \* the direct sum, with the even states first
                               \/ o.U[i] = [p \in 1..RDim(o) |-> [q \in 1..RDim(o) |-> IF p <= RDim(a) /\ q <= RDim(a) THEN a.U[i][p][q]
                                                ELSE IF p > RDim(a) /\ q > RDim(a) THEN b.U[i][p - RDim(a)][q - RDim(a)] ELSE <<0, 0>>]]
                               \/ o.U[i] = [p \in 1..RDim(o) |-> [q \in 1..RDim(o) |-> IF p <= RDim(b) /\ q <= RDim(b) THEN b.U[i][p][q]
                                                ELSE IF p > RDim(b) /\ q > RDim(b) THEN a.U[i][p - RDim(b)][q - RDim(b)] ELSE <<0, 0>>]]
                         [] OTHER -> TRUE>>,
    <<"unchanged", e.ok => e.same>>>>
(* k = "match": the operations of the representation are brought into the given order *)
Match(e) == <<<<"returned", e.ok>>,
    <<"reordered", e.ok => e.out.split = e.a.split /\ e.out.den = e.a.den /\ Len(e.out.U) = Len(e.target) /\ e.outops = e.target /\ \A i \in 1..Len(e.target) :
        \E j \in 1..Len(e.ops) : e.ops[j] = e.target[i] /\ e.out.U[i] = e.a.U[j]>>>>
(* k = "gen": a representation from generators *)
RECURSIVE Close(_, _)
Close(S, G) == LET T == S \cup {MMul(a, b) : a \in S, b \in G} IN IF T = S THEN S ELSE Close(T, G)
Gen(e) == LET G == Range1(e.gens) full == Close({Eye(Len(e.gens[1]))}, G) IN
  <<<<"returned", e.ok>>,
    <<"group", e.ok => Range1(e.ops) = full /\ AllDistinct(e.ops)>>,
    <<"generators", e.ok => \A i \in 1..Len(e.gens) : \E j \in 1..Len(e.ops) : e.ops[j] = e.gens[i] /\ e.out.U[j] = e.gU[i]>>,
    <<"inversion", e.ok => e.out.split = IF e.neg THEN 0 ELSE RDim(e.out)>>,
    <<"representation", e.ok => IsRep(Grp(e), R_(e.out))>>>>
(* k = "check": check() decides whether it is a representation.  A homomorphism that is not unitary is left open. *)
ChkRep(e) == <<<<"returned", e.ok>>,
    <<"decision", e.ok => (IsRep(Grp(e), R_(e.a)) => e.res) /\ (e.res => IsHom(Grp(e), R_(e.a)))>>>>
(* k = "usym": symmetrization with one representation *)
USym(e) == LET g == Grp(e) r == R_(e.a) H == CIs(e.H) IN
  <<<<"returned", e.ok>>,
    <<"mean", e.ok => \A i \in 1..Len(e.nb) : LET X == PlainMean(g, r, e.nb, H, i) IN
          \A v \in 1..Len(e.out) : NearM(e.out[v][i], X, Order(g) * r.den * r.den)>>>>
(* k = "little": invariance under the operations that keep the point *)
Little2(e) == LET g == Grp(e) r == R_(e.a) IN
  <<<<"returned", e.ok>>,
    <<"mean", e.ok => \A i \in 1..Len(e.pts) : NearM(e.out[i], LittleMean(g, r, e.pts[i], CInt(e.M[i])), Cardinality(Little(g, e.pts[i])) * r.den * r.den)>>>>
(* k = "ureal": matrices at all points of the orbits *)
UReal(e) == LET g == Grp(e) r == R_(e.a) full == UNION {{MV(OpMat(g, x), e.ks[i]) : x \in SignedOps(g)} : i \in 1..Len(e.ks)} IN
  <<<<"returned", e.ok>>,
    <<"points", e.ok => Range1(e.outk) = full /\ AllDistinct(e.outk)>>,
    <<"matrices", e.ok => Len(e.out) = Len(e.outk) /\ \A j \in 1..Len(e.outk) : \E i \in 1..Len(e.ks) : \E x \in SignedOps(g) :
          /\ MV(OpMat(g, x), e.ks[i]) = e.outk[j]
          /\ NearM(e.out[j], IF e.inverse THEN UdMU(RepMat(r, x), CInt(e.M[i]), RepMat(r, x)) ELSE UMUd(RepMat(r, x), CInt(e.M[i]), RepMat(r, x)), r.den * r.den)>>>>
(* k = "usymm": does an operator (all vectors r listed, u H_r e^(2 pi i k r)) have the symmetry *)
At(nb, H, p, n) == IF \E i \in 1..Len(nb) : nb[i] = p THEN H[CHOOSE i \in 1..Len(nb) : nb[i] = p] ELSE CMZero(n, n)
HasSym(g, r, nb, H) == \A i \in 1..Len(nb), x \in SignedOps(g) :
    UMUd(RepMat(r, x), H[i], RepMat(r, x)) = CMScale(r.den * r.den, At(nb, H, MV(OpMat(g, x), nb[i]), RDim(r)))
UChk(e) == <<<<"returned", e.ok>>, <<"decision", e.ok => e.res = HasSym(Grp(e), R_(e.a), e.nb, CIs(e.H))>>>>
(* k = "subspaces": the classes of coupled basis states *)
Subs(e) == LET O == Occ(R_(e.a)) rows == {O[i] : i \in 1..RDim(e.a)} IN
  <<<<"returned", e.ok>>,
    <<"classes", e.ok => Range1(e.groups) = rows /\ AllDistinct(e.groups)>>,
    <<"counts", e.ok => Len(e.counts) = Len(e.groups) /\ \A i \in 1..Len(e.groups) : e.counts[i] = Cardinality({j \in 1..RDim(e.a) : O[j] = e.groups[i]})>>>>
(* k = "reject": what is not possible is rejected (and leaves everything as it was); k = "true": a plain observation *)
Rej(e) == <<<<"rejected", e.ok /\ e.raised>>, <<"unchanged", e.ok /\ e.same>>>>
Tru(e) == <<<<"holds", e.ok /\ e.res>>>>
Clauses(e) == CASE e.k = "hsym" -> HSym(e) [] e.k = "happly" -> HApply(e) [] e.k = "hreal" -> HReal(e) [] e.k = "orbital" -> Orbital(e)
   [] e.k = "rep" -> Rep(e) [] e.k = "diamond" -> Diamond(e) [] e.k = "match" -> Match(e) [] e.k = "gen" -> Gen(e) [] e.k = "check" -> ChkRep(e)
   [] e.k = "usym" -> USym(e) [] e.k = "little" -> Little2(e) [] e.k = "ureal" -> UReal(e) [] e.k = "uchk" -> UChk(e)
   [] e.k = "subspaces" -> Subs(e) [] e.k = "reject" -> Rej(e) [] e.k = "true" -> Tru(e)
   [] OTHER -> Assert(FALSE, e.k)
Verdict == Judge(Clauses(Trace[l]))
=============================================================================
