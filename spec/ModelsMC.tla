------------------------------ MODULE ModelsMC ------------------------------
(* Model editing as a state machine: the exhaustive check of the laws that the *)
(* trace specifications rely on, and the generator of editing histories.       *)
EXTENDS Models, Json
CONSTANTS Depth, Small
VARIABLES m, hist
vars == <<m, hist>>
H1(a) == <<<<<<a, 0>>>>>>
M2(a, b, c, d) == <<<<a, b>>, <<c, d>>>>
StartSmall == {
   MkModel(<<<<0>>, <<1>>>>, <<H1(2), H1(1)>>),
   MkModel(<<<<0>>, <<1>>, <<2>>>>, <<M2(<<1, 0>>, <<0, 1>>, <<0, -1>>, <<2, 0>>), M2(<<0, 1>>, <<1, 0>>, <<0, 0>>, <<1, -1>>), M2(<<0, 0>>, <<1, 1>>, <<0, 0>>, <<0, 0>>)>>),
   MkModel(<<<<0, 0>>, <<1, 0>>, <<0, 1>>>>, <<M2(<<1, 0>>, <<1, 1>>, <<1, -1>>, <<0, 0>>), M2(<<1, 0>>, <<0, 0>>, <<2, 0>>, <<1, 0>>), M2(<<0, 1>>, <<0, 0>>, <<0, 0>>, <<0, 0>>)>>)}
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Trans(d) == IF d = 1 THEN {<<<<1>>>>, <<<<-1>>>>, <<<<2>>>>}
            ELSE {<<<<1, 1>>, <<0, 1>>>>, <<<<0, -1>>, <<1, 0>>>>, <<<<2, 0>>, <<1, 1>>>>}
NewNb(mm) == LET d == Dim(mm) IN
   {v \in (IF d = 1 THEN {<<2>>, <<3>>} ELSE {<<1, 1>>, <<1, -1>>, <<2, 1>>}) : v \notin Range1(mm.nb) /\ VNeg(v) \notin Range1(mm.nb)}
Cmds(mm) ==
    {[c |-> "permute", ord |-> p] : p \in Perms(Bands(mm))}
    \cup {[c |-> "transform", B |-> b] : b \in Trans(Dim(mm))}
    \cup {[c |-> "scale", f |-> f] : f \in {-1, 2}}
    \cup {[c |-> "shift", x |-> x] : x \in {-2, 3}}
    \cup {[c |-> "limit", l2 |-> x] : x \in {0, 1, 2, 4}}
    \cup {[c |-> "cleanup", n2 |-> x] : x \in {1, 3}}
    \cup {[c |-> "add", new |-> <<v>>] : v \in NewNb(mm)}
    \cup (IF Bands(mm) <= 2 THEN {[c |-> "double"]} ELSE {})
Do(mm, c) == CASE c.c = "permute" -> Permute(mm, c.ord)
               [] c.c = "transform" -> Transform(mm, c.B)
               [] c.c = "scale" -> ScaleBy(mm, c.f)
               [] c.c = "shift" -> Shift(mm, c.x)
               [] c.c = "limit" -> LimitLength(mm, c.l2)
               [] c.c = "cleanup" -> Cleanup(mm, c.n2)
               [] c.c = "add" -> AddNeighbors(mm, c.new)
               [] OTHER -> DirectSum(mm, mm)
Init == m \in StartSmall /\ hist = <<>>
Bounded(mm) == /\ Len(mm.nb) <= 5 /\ \A r \in Range1(mm.nb) : \A i \in 1..Len(r) : Abs(r[i]) <= 6
               /\ \A A \in Range1(mm.H) : GNorm2(A) <= 300
Next == /\ Len(hist) < Depth
        /\ \E c \in Cmds(m) : LET n == Do(m, c) IN
              Bounded(n) /\ m' = n /\ hist' = Append(hist, c)
(* generator: one command at random; the starting model is chosen by the driver *)
NextSim == /\ Len(hist) < Depth
           /\ \E k \in {RandomElement({c.c : c \in Cmds(m)})} :
                \E c \in {RandomElement({x \in Cmds(m) : x.c = k})} :
                    m' = (LET n == Do(m, c) IN n) /\ hist' = Append(hist, c)
           /\ IF Len(hist') = Depth THEN PrintT("BEH|" \o ToJson([d |-> Dim(m), n |-> Bands(m), h |-> hist'])) ELSE TRUE
View == m
Probes(d) == IF d = 1 THEN {<<0>>, <<1>>, <<2>>} ELSE {<<0, 0>>, <<1, 0>>, <<1, 2>>, <<3, 1>>}
(* ------------------------------------------------ laws ------------------- *)
ZeroFirst == m.nb[1] = Zero(Dim(m)) /\ Len(m.nb) = Len(m.H)
Hermitian == \A q \in Probes(Dim(m)) : IsHermitian(HK(m, q))
Periodic == \A q \in Probes(Dim(m)) : HK(m, VAdd(q, VScale(4, q))) = HK(m, q)
PermuteKeeps == \A p \in Perms(Bands(m)) : \A q \in Probes(Dim(m)) : BandSums(Permute(m, p), q) = BandSums(m, q)
TransformPulls == \A B \in Trans(Dim(m)) : \A q \in Probes(Dim(m)) : HK(Transform(m, B), q) = HK(m, MV(Transp(B), q))
ScaleSums == \A q \in Probes(Dim(m)) : LET a == BandSums(m, q) b == BandSums(ScaleBy(m, -2), q) IN
                \A j \in 1..Len(a) : b[j] = Pow(-2, j) * a[j]
ShiftSums == \A q \in Probes(Dim(m)) : LET a == BandSums(m, q) b == BandSums(Shift(m, 3), q) IN
                b[1] = a[1] + 3 * Bands(m)
DoubleSums == Bands(m) <= 2 => \A q \in Probes(Dim(m)) : LET a == BandSums(m, q) b == BandSums(DirectSum(m, m), q) IN
                \A j \in 1..Len(a) : b[j] = 2 * a[j]
AddKeeps == \A v \in NewNb(m) : \A q \in Probes(Dim(m)) : HK(AddNeighbors(m, <<v>>), q) = HK(m, q)
(* the folded power sums really are the sums over the points that fold onto k (2 x cells: k + 1/2) *)
Shifts(d) == IF d = 1 THEN {<<0>>, <<2>>} ELSE {<<0, 0>>, <<2, 0>>, <<0, 2>>, <<2, 2>>}
FoldTwo == (Bands(m) <= 2 /\ Len(m.nb) <= 3) => LET L == MScale(2, Eye(Dim(m))) qs == <<Zero(Dim(m)), [i \in 1..Dim(m) |-> i]>> IN
    LET F == Folded(m, L, qs, 2) IN
    \A i \in 1..2 : \A j \in 1..2 : F[j][i] = SumOver(Shifts(Dim(m)), LAMBDA g: GMTr(GMPow(HK(m, VAdd(qs[i], g)), j))[1])
=============================================================================
