---------------------------------- MODULE Dos ----------------------------------
(* Densities of states of several bands on a grid: how many states lie below a  *)
(* level, how dense they are, where the levels fill up, and the energy of the   *)
(* filled states.  A system s is a record                                        *)
(*   method, wrap, bands: sequence of grids of integers (cells: of cells given   *)
(*   by centre and gradient), diag: diagonal of the tetrahedra                   *)
(* Levels are in eighths.                                                        *)
EXTENDS Cuts
LOCAL INSTANCE FiniteSetsExt
LOCAL INSTANCE SequencesExt
Flat3(G) == TLCEval({G[x][y][z] : x \in 1..Len(G), y \in 1..Len(G[1]), z \in 1..Len(G[1][1])})
BandRange8(s, b) == IF s.method = "grad" THEN LET c == {s.bands[b][i][1] : i \in 1..Len(s.bands[b])} IN <<8 * MinOf(c), 8 * MaxOf(c)>>
                    ELSE LET c == Flat3(s.bands[b]) IN <<8 * MinOf(c), 8 * MaxOf(c)>>
Nb(s) == Len(s.bands)
CellSet(s) == IF s.method = "grad" THEN 1..Len(s.bands[1])
              ELSE LET d == Dims(s.bands[1]) w == IF s.wrap THEN 0 ELSE 1 x == IF s.method = "cubes+" THEN 2 ELSE 1
                   IN (1..((d[1] - w) \div x)) \X (1..((d[2] - w) \div x)) \X (1..((d[3] - w) \div x))
GradFn(c) == <<8 * c[1] - 4 * (c[2] + c[3] + c[4]), <<8 * c[2], 8 * c[3], 8 * c[4]>>>>
FnOf(s, b, p) == IF s.method = "grad" THEN GradFn(s.bands[b][p]) ELSE CellFn(s.bands[b], p)
CellV(s, b, p, v) == CASE s.method \in {"cubes", "grad"} -> LET f == FnOf(s, b, p) IN CubeVol(f[1], f[2], v)
                       [] s.method = "tetras" -> GridTetVol(s.bands[b], p, s.diag, v)
                       [] s.method = "cubes+" -> GridExtra(s.bands[b], s.wrap, p, v, GridCubeVol)
                       [] OTHER -> LET f == FnOf(s, b, p) IN SphereVol(SphereD(v - Mean8(s.bands[b], p), Norm2of(f[2])))
CellD(s, b, p, v) == CASE s.method \in {"cubes", "grad"} -> LET f == FnOf(s, b, p) IN CubeDen(f[1], f[2], v, 8)
                       [] s.method = "tetras" -> GridTetDen(s.bands[b], p, s.diag, v)
                       [] s.method = "cubes+" -> GridExtra(s.bands[b], s.wrap, p, v, GridCubeDen)
                       [] OTHER -> 0
CellJ(s, b, p, v) == CASE s.method \in {"cubes", "grad"} -> LET f == FnOf(s, b, p) IN Jump(f[1], f[2], v)
                       [] s.method = "tetras" -> GridTetJump(s.bands[b], p, s.diag, v)
                       [] s.method = "cubes+" -> ExtraJump(s.bands[b], p, v)
                       [] OTHER -> FnOf(s, b, p)[2] = <<0, 0, 0>> /\ v = Mean8(s.bands[b], p)
MeanOf(s, f(_)) == LET C == CellSet(s) IN SumOver(C, f) \div Cardinality(C)
(* nothing below the lowest, everything below the highest energy of the band *)
CutBand(s, b, v) == LET r == BandRange8(s, b) IN r[1] < v /\ v < r[2]
BandN(s, b, v) == IF CutBand(s, b, v) THEN MeanOf(s, LAMBDA p: CellV(s, b, p, v))
                  ELSE IF v >= BandRange8(s, b)[2] THEN One ELSE 0
BandD(s, b, v) == IF CutBand(s, b, v) THEN MeanOf(s, LAMBDA p: CellD(s, b, p, v)) ELSE 0
BandJ(s, b, v) == CutBand(s, b, v) /\ \E p \in CellSet(s) : CellJ(s, b, p, v)
States(s, v) == SumSeq([b \in 1..Nb(s) |-> BandN(s, b, v)])
Density(s, v) == SumSeq([b \in 1..Nb(s) |-> BandD(s, b, v)])
AnyJump(s, v) == \E b \in 1..Nb(s) : BandJ(s, b, v)
(* an integer number of electrons, and no overlap of the bands above and below *)
Gap8(s, n) == BandRange8(s, n + 1)[1] - BandRange8(s, n)[2]
Isolator(s, n) == n > 0 /\ n < Nb(s) /\ Gap8(s, n) > 0
MidGap16(s, n) == BandRange8(s, n + 1)[1] + BandRange8(s, n)[2]     \* in sixteenths
(* the antiderivative of the volume, in eighths: the volume is its derivative *)
CubeInt(c, g, v) == LET a == NonZero(g) t == v - LowCorner(c, g) n == Len(a) IN
    IF t <= 0 THEN 0 ELSE IF n = 0 THEN t * One
    ELSE IF t >= SumSeq(a) THEN (2 * t - SumSeq(a)) * (One \div 2)
    ELSE Fix(Corners(a, t, n + 1, LAMBDA S, p: 1), Fact(n + 1) * Prod(a))
BandInt(s, b, v) == MeanOf(s, LAMBDA p: LET f == FnOf(s, b, p) IN CubeInt(f[1], f[2], v))
(* energy of the states below v (eighths): integral of e dN = v N(v) - integral of N; nothing is added above the band *)
BandE(s, b, v) == LET r == BandRange8(s, b) IN
    IF v < r[1] THEN 0 ELSE LET m == Min2(v, r[2]) IN m * BandN(s, b, m) - (BandInt(s, b, m) - BandInt(s, b, r[1]))
Energy(s, v) == SumSeq([b \in 1..Nb(s) |-> BandE(s, b, v)])
=============================================================================
