----------------------------- MODULE TraceGroups -----------------------------
(* Judges recorded command histories of the library's symmetry groups.        *)
EXTENDS Groups, TraceBase

ObsSet(o) == Range1(o.ops)
StepClauses(e, n, before, r) ==
  LET d == e.dim
      o == e.obs[n]
      tag == e.cmds[n].c \o ToString(n)
  IN
  IF ~r.ok THEN << <<"accepted_non_group:" \o tag, ~o.ok>> >>
  ELSE IF ~o.ok THEN << <<"raised:" \o tag, FALSE>> >>
  ELSE LET G == r.g IN <<
    <<"ops:" \o tag, ObsSet(o) = G>>,
    <<"listed_once:" \o tag, AllDistinct(o.ops)>>,
    <<"order:" \o tag, o.len = Cardinality(G)>>,
    <<"inversion:" \o tag, d % 2 = 1 => (o.inv <=> MNeg(Eye(d)) \in G)>>,
    <<"closed:" \o tag, o.check>>,
    <<"orthogonal:" \o tag, o.orth <=> Orthogonal(G, d)>>,
    <<"equal:" \o tag, \A i \in 1..Len(before) : o.eq[i] <=> before[i] = G>>,
    <<"contains:" \o tag, \A i \in 1..Len(before) : /\ o.sub[i] <=> G \subseteq before[i]
                                                   /\ o.sup[i] <=> before[i] \subseteq G>>,
    <<"classes:" \o tag, o.classes # <<>> => {Range1(c) : c \in Range1(o.classes)} = ConjClasses(G, d)>>,
    <<"quotient:" \o tag, \A i \in 1..Len(before) :
        LET q == o.quot[i] IN
        (before[i] \subseteq G /\ NormalIn(before[i], G, d)) =>
           (q.ok => IsQuotient(Range1(q.ops), G, before[i], d) /\ AllDistinct(q.ops))>>,
    <<"operands_untouched:" \o tag, o.untouched>>
  >>
RECURSIVE AllSteps(_, _, _)
AllSteps(e, n, regs) == IF n > Len(e.cmds) THEN <<>> ELSE
    LET r == TLCEval(Apply(regs, e.cmds[n], e.dim)) IN
    StepClauses(e, n, regs, r) \o AllSteps(e, n + 1, IF r.ok THEN Append(regs, r.g) ELSE regs)

(* a set of matrices that need not be closed: the closure test has to see that *)
CheckClauses(e) == << <<"check_of_set", e.ok => (e.check <=> IsGroup(WithInv(Range1(e.mats), e.inv), e.dim))>>,
                      <<"raised", e.ok \/ Closure(Range1(e.mats), e.dim) = {}>> >>

(* groups with irrational matrices, projected to their Cayley tables *)
TableGroup(e) ==
  LET n == e.n IN
  /\ n = e.len
  /\ \A i, j \in 1..n : e.mul[i][j] \in 1..n
  /\ \A i \in 1..n : {e.mul[i][j] : j \in 1..n} = 1..n
  /\ \A i \in 1..n : e.mul[1][i] = i /\ e.mul[i][1] = i
RECURSIVE OrderFrom(_, _, _, _)
OrderFrom(e, i, p, k) == IF p = 1 THEN k ELSE IF k > e.n THEN 0 ELSE OrderFrom(e, i, e.mul[p][i], k + 1)
OrderIn(e, i) == OrderFrom(e, i, i, 1)
NumOfOrder(e, k, det) == Cardinality({i \in 1..e.n : OrderIn(e, i) = k /\ (det = 0 \/ e.det[i] = det)})
Phi(n) == Cardinality({k \in 1..n : GCD(k, n) = 1})
TableExpect(e) ==
  CASE e.name = "cyclic" -> /\ e.n = (IF e.inv THEN 2 ELSE 1) * e.count
                            /\ \E i \in 1..e.n : OrderIn(e, i) = e.count /\ e.det[i] = 1
                            /\ \A i, j \in 1..e.n : e.mul[i][j] = e.mul[j][i]
    [] e.name = "dihedral" -> /\ e.n = (IF e.inv THEN 4 ELSE 2) * e.count
                              /\ \E i \in 1..e.n : OrderIn(e, i) = e.count /\ e.det[i] = 1
                              /\ NumOfOrder(e, 2, -1) >= e.count
    [] e.name = "o2" -> e.n = e.count /\ \E i \in 1..e.n : OrderIn(e, i) = e.count
    [] e.name = "icosahedral" -> /\ e.n = (IF e.inv THEN 120 ELSE 60)
                                 /\ NumOfOrder(e, 2, 1) = 15 /\ NumOfOrder(e, 3, 1) = 20
                                 /\ NumOfOrder(e, 5, 1) = 24 /\ NumOfOrder(e, 1, 1) = 1
    [] OTHER -> e.n = e.expect
TableClauses(e) == << <<"group_axioms", TableGroup(e)>>, <<"structure", TableGroup(e) => TableExpect(e)>>,
                      <<"closed", e.check>> >>
(* space groups: translations are dropped, or the operations that have one *)
SubMat(g, d) == TLCEval([i \in 1..d |-> TLCEval([j \in 1..d |-> g[i][j]])])
HasNoShift(g, d) == \A i \in 1..d : g[i][d+1] = 0 /\ g[d+1][i] = 0
Embed(B, d) == TLCEval([i \in 1..d+1 |-> TLCEval([j \in 1..d+1 |-> IF i <= d /\ j <= d THEN B[i][j] ELSE IF i = j THEN 1 ELSE 0])])
BoolStr(b) == IF b THEN "True" ELSE "False"
(* what is seen of a symmetry object whose operations are the set G *)
Shows(v, G, d, proj) ==
  /\ Range1(v.ops) = G /\ AllDistinct(v.ops) /\ v.len = Cardinality(G)
  /\ v.proj = proj /\ v.dim = d /\ v.sdim = (IF proj THEN d - 1 ELSE d)
  /\ v.inv <=> (d % 2 = 1 /\ MNeg(Eye(d)) \in G)
  /\ v.str = "Symmetry(dim=" \o ToString(d) \o ", order=" \o ToString(Cardinality(G)) \o ", inversion=" \o BoolStr(v.inv)
              \o (IF proj THEN ", projective=True)" ELSE ")")
AffineClauses(e) ==
  LET d == e.dim
      G == Range1(e.mats)
      P == {SubMat(g, d) : g \in G}
      T == {SubMat(g, d) : g \in {h \in G : HasNoShift(h, d)}}
      B == Embed(e.B, d)
      Binv == UInv(B)
      Q == Range1(e.plain)
  IN <<
    <<"space_group", Shows(e.self, G, d + 1, TRUE)>>,
    <<"ignore_translation", Shows(e.ignore, P, d, FALSE) /\ Shows(e.point, P, d, FALSE)>>,
    <<"remove_translation", Shows(e.remove, T, d, FALSE) /\ Shows(e.strict, T, d, FALSE)>>,
    <<"transpose_of_space_group", Shows(e.transpose, {Transp(g) : g \in G}, d + 1, TRUE)>>,
    <<"dual_of_space_group", Shows(e.dual, {UInv(Transp(g)) : g \in G}, d + 1, TRUE)>>,
    <<"copy_of_space_group", Shows(e.copy, G, d + 1, TRUE)>>,
    <<"transformed_space_group", Shows(e.transform, {MMul(MMul(B, g), Binv) : g \in G}, d + 1, TRUE)>>,
    <<"subgroup_of_space_group", Shows(e.ident, {Eye(d + 1)}, d + 1, TRUE)>>,
    <<"equal_space_groups", e.eq[1] /\ e.eq[2] /\ e.eq[3]>>,
    <<"plain_operations", \A v \in Range1(e.plain_views) : Shows(v, Q, d, FALSE)>>,
    <<"operands_untouched:affine", e.untouched>> >>
(* is the polynomial e.terms = <<<<coef, <<exponents>>>>, ...>> invariant under the group? *)
Poly(t, x) == SumSeq([i \in 1..Len(t) |-> t[i][1] * Pow(x[1], t[i][2][1]) * Pow(x[2], t[i][2][2]) * Pow(x[3], t[i][2][3])])
PolyInvariant(e) == \A g \in WithInv(Range1(e.mats), e.inv) : \A x \in (-1..2) \X (-1..2) \X (-1..2) :
                       Poly(e.terms, MV(g, x)) = Poly(e.terms, x)
Clauses(e) ==
  IF e.k = "check" THEN CheckClauses(e)
  ELSE IF ~e.ok THEN << <<"raised", FALSE>> >>
  ELSE CASE e.k = "hist" -> AllSteps(e, 1, <<>>)
         [] e.k = "table" -> TableClauses(e)
         [] e.k = "affine" -> AffineClauses(e)
         [] e.k = "func" -> << <<"symmetric_function", e.res <=> PolyInvariant(e)>> >>
         [] OTHER -> << <<"unknown event", FALSE>> >>
Verdict == Judge(Clauses(Trace[l]))
=============================================================================
