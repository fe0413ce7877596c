-------------------------------- MODULE Cuts --------------------------------
(* Volumes of cells cut by a level: for a function that is linear in a cube or *)
(* in a tetrahedron, the part of the cell where the function is below a level  *)
(* is a polynomial with rational coefficients.  Energies are integers (in      *)
(* units of 1/8 where cells of a grid are concerned).                          *)
EXTENDS Lib
LOCAL INSTANCE FiniteSetsExt
LOCAL INSTANCE SequencesExt
FXD == 5 \* decimal digits of the fixed point numbers
Pos(x) == IF x > 0 THEN x ELSE 0
RECURSIVE Digits(_, _, _)
Digits(r, d, k) == IF k = 0 THEN 0 ELSE Pow(10, k - 1) * ((10 * r) \div d) + Digits((10 * r) % d, d, k - 1)
(* n/d in fixed point, without leaving the range of 32 bit integers *)
Fix(n, d) == LET g == GCD(n, d) m == Abs(n) \div g e == d \div g q == (m \div e) * Pow(10, FXD) + Digits(m % e, e, FXD) IN IF n < 0 THEN -q ELSE q
Near(a, b, tol) == Abs(a - b) <= tol
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Fact(k) == CASE k <= 1 -> 1 [] k = 2 -> 2 [] k = 3 -> 6 [] OTHER -> 24
(* inclusion and exclusion over the corners of the unit cube, a = positive gradients, t = level above the lowest corner *)
Corners(a, t, k, f(_, _)) == SumOver(SUBSET (1..Len(a)), LAMBDA S: LET p == t - SumOver(S, LAMBDA i: a[i]) IN
                                IF p <= 0 THEN 0 ELSE (IF Cardinality(S) % 2 = 0 THEN 1 ELSE -1) * Pow(p, k) * f(S, p))
NonZero(g) == SelectSeq(Map(g, Abs), LAMBDA x: x > 0)
LowCorner(c, g) == c + SumSeq([i \in 1..Len(g) |-> Min2(0, g[i])])   \* of c + g.x, x in the unit cube
One == Pow(10, FXD)
CubeVol(c, g, v) == LET a == NonZero(g) t == v - LowCorner(c, g) n == Len(a) IN
    IF n = 0 THEN (IF t > 0 THEN One ELSE 0) ELSE IF t <= 0 THEN 0 ELSE IF t >= SumSeq(a) THEN One
    ELSE Fix(Corners(a, t, n, LAMBDA S, p: 1), Fact(n) * Prod(a))
(* derivative with respect to the level, times the scale of the energies *)
CubeDen(c, g, v, s) == LET a == NonZero(g) t == v - LowCorner(c, g) n == Len(a) IN
    IF n = 0 \/ t <= 0 \/ t >= SumSeq(a) THEN 0 ELSE Fix(s * Corners(a, t, n - 1, LAMBDA S, p: 1), Fact(n - 1) * Prod(a))
(* a one dimensional cut jumps at its ends *)
Jump(c, g, v) == LET a == NonZero(g) t == v - LowCorner(c, g) IN Len(a) <= 1 /\ (t = 0 \/ t = SumSeq(a))
(* centre of mass of the cut in the cell: each corner contributes a simplex spanned by its edges along the non zero gradients *)
Rank(g, i) == Cardinality({j \in 1..i : g[j] # 0})
CubeCom(c, g, v, i) == IF g[i] = 0 THEN One \div 2 ELSE
    LET a == NonZero(g) k == Len(a) j == Rank(g, i) t == v - LowCorner(c, g)
        m == Corners(a, t, k - 1, LAMBDA S, p: (IF j \in S THEN k * a[j] ELSE 0) + p)
        x == Fix(m, k * a[j] * Corners(a, t, k - 1, LAMBDA S, p: 1))
    IN IF g[i] > 0 THEN x ELSE One - x
IsCut(c, g, v) == LET t == v - LowCorner(c, g) IN t > 0 /\ t < SumSeq(Map(g, Abs))

(* tetrahedra: linear between the four values; fraction of the volume below v *)
Sort4(s) == SortSeq(s, LAMBDA x, y: x < y)
Cube3(x) == x * x * x
Sq2(x) == x * x
TetVol(vals, v) == LET s == Sort4(vals) IN
    IF v <= s[1] THEN 0 ELSE IF v >= s[4] THEN One
    ELSE IF v <= s[2] THEN Fix(Cube3(v - s[1]), (s[2] - s[1]) * (s[3] - s[1]) * (s[4] - s[1]))
    ELSE IF v >= s[3] THEN One - Fix(Cube3(s[4] - v), (s[4] - s[1]) * (s[4] - s[2]) * (s[4] - s[3]))
    ELSE LET x == v - s[2] IN
         Fix((Sq2(s[2] - s[1]) + 3 * (s[2] - s[1]) * x + 3 * x * x) * (s[3] - s[2]) * (s[4] - s[2]) - (s[3] - s[1] + s[4] - s[2]) * Cube3(x),
             (s[3] - s[1]) * (s[4] - s[1]) * (s[3] - s[2]) * (s[4] - s[2]))
TetDen(vals, v, u) == LET s == Sort4(vals) IN
    IF v <= s[1] \/ v >= s[4] THEN 0
    ELSE IF v <= s[2] THEN Fix(3 * u * Sq2(v - s[1]), (s[2] - s[1]) * (s[3] - s[1]) * (s[4] - s[1]))
    ELSE IF v >= s[3] THEN Fix(3 * u * Sq2(s[4] - v), (s[4] - s[1]) * (s[4] - s[2]) * (s[4] - s[3]))
    ELSE LET x == v - s[2] IN
         Fix(u * ((3 * (s[2] - s[1]) + 6 * x) * (s[3] - s[2]) * (s[4] - s[2]) - 3 * (s[3] - s[1] + s[4] - s[2]) * Sq2(x)),
             (s[3] - s[1]) * (s[4] - s[1]) * (s[3] - s[2]) * (s[4] - s[2]))
(* where the derivative jumps: three or more equal values at the level; elsewhere kinks only *)
TetJump(vals, v) == Cardinality({i \in 1..4 : vals[i] = v}) >= 3

(* ---- grids: G[x][y][z], cells between neighboring points, periodic if wrap *)
Dims(G) == <<Len(G), Len(G[1]), Len(G[1][1])>>
Cells(G, wrap) == LET d == Dims(G) w == IF wrap THEN 0 ELSE 1 IN (1..(d[1] - w)) \X (1..(d[2] - w)) \X (1..(d[3] - w))
At(G, p, b) == LET d == Dims(G) IN G[((p[1] + b[1] - 1) % d[1]) + 1][((p[2] + b[2] - 1) % d[2]) + 1][((p[3] + b[3] - 1) % d[3]) + 1]
Bits == {0, 1} \X {0, 1} \X {0, 1}
(* the linear function of a cell with the mean value and the mean slopes, times 8: <<value at the lowest vertex, gradient>> *)
Mean8(G, p) == SumOver(Bits, LAMBDA b: At(G, p, b))
Slope8(G, p, i) == 2 * SumOver(Bits, LAMBDA b: IF b[i] = 1 THEN At(G, p, b) ELSE -At(G, p, b))
CellFn(G, p) == LET g == <<Slope8(G, p, 1), Slope8(G, p, 2), Slope8(G, p, 3)>> IN <<Mean8(G, p) - (g[1] + g[2] + g[3]) \div 2, g>>
GridCubeVol(G, p, v8) == LET f == CellFn(G, p) IN CubeVol(f[1], f[2], v8)
GridCubeDen(G, p, v8) == LET f == CellFn(G, p) IN CubeDen(f[1], f[2], v8, 8)
GridCubeJump(G, p, v8) == LET f == CellFn(G, p) IN Jump(f[1], f[2], v8)
(* six tetrahedra around the diagonal from corner d to the opposite one *)
Perms3 == {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
Flip(d, s) == [i \in 1..3 |-> IF i \in s THEN 1 - d[i] ELSE d[i]]
TetOf(G, p, d, pm) == <<8 * At(G, p, d), 8 * At(G, p, Flip(d, {pm[1]})), 8 * At(G, p, Flip(d, {pm[1], pm[2]})), 8 * At(G, p, Flip(d, {1, 2, 3}))>>
GridTetVol(G, p, d, v8) == SumOver(Perms3, LAMBDA pm: TetVol(TetOf(G, p, d, pm), v8)) \div 6
GridTetDen(G, p, d, v8) == SumOver(Perms3, LAMBDA pm: TetDen(TetOf(G, p, d, pm), v8, 8)) \div 6
GridTetJump(G, p, d, v8) == \E pm \in Perms3 : TetJump(TetOf(G, p, d, pm), v8)
Diagonals == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<1, 1, 0>>}
(* every second point in each direction *)
Coarse(G) == TLCEval([x \in 1..((Len(G) + 1) \div 2) |-> [y \in 1..((Len(G[1]) + 1) \div 2) |-> [z \in 1..((Len(G[1][1]) + 1) \div 2) |-> G[2 * x - 1][2 * y - 1][2 * z - 1]]]])
(* Richardson extrapolation of second order: mean of the eight small cells, plus a third of the change *)
GridExtra(G, wrap, p, v8, f(_, _, _)) ==
    LET fine == SumOver(Bits, LAMBDA b: f(G, <<2 * p[1] - b[1], 2 * p[2] - b[2], 2 * p[3] - b[3]>>, v8)) \div 8
        coarse == f(Coarse(G), p, v8)
    IN fine + (fine - coarse) \div 3
ExtraJump(G, p, v8) == \/ GridCubeJump(Coarse(G), p, v8)
                       \/ \E b \in Bits : GridCubeJump(G, <<2 * p[1] - b[1], 2 * p[2] - b[2], 2 * p[3] - b[3]>>, v8)
(* spheres of unit volume: the part below a plane.  d = distance of the plane from the centre in units of the radius 0.62035.. *)
RAD == 62035
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m <= n \div m THEN Root(n, m, hi) ELSE Root(n, lo, m)
(* square root of n < 30000 in fixed point: one step of Heron's method *)
Norm(n) == IF n = 0 THEN 0 ELSE LET r == Root(n * 65536, 0, 46340) IN (Fix(r, 256) + Fix(n * 256, r)) \div 2
Norm2of(g) == SumSeq([i \in 1..Len(g) |-> g[i] * g[i]])
MulF(x, y) == LET h == x \div 1000 l == x % 1000 IN (h * y) \div 100 + (l * y) \div One  \* fixed point product, 0 <= x, y < 4
SphereD(num, n2) == IF n2 = 0 THEN (IF num > 0 THEN One ELSE IF num < 0 THEN -One ELSE 0)
    ELSE LET q == Fix(Abs(num) * One, Norm(n2)) s == (IF num < 0 THEN -1 ELSE 1) IN IF q >= RAD THEN s * One ELSE s * Fix(q, RAD)
SphereVol(d) == LET p == One + d IN MulF(MulF(p, p), 2 * One - d) \div 4
SphereDen(d) == (3 * MulF(One + d, One - d)) \div 4  \* the derivative times radius and gradient
=============================================================================
