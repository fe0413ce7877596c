------------------------------ MODULE TraceCuts ------------------------------
EXTENDS Cuts, TraceBase
(* one cell: energies are integers in units of 1/s *)
VTol(g) == IF Len(NonZero(g)) = 3 THEN 4 ELSE 40
CubeClauses(e) == LET r == 1..Len(e.vs) IN <<
   <<"volume", \A i \in r : Jump(e.c, e.g, e.vs[i]) \/ Near(e.V[i], CubeVol(e.c, e.g, e.vs[i]), VTol(e.g))>>,
   <<"density", \A i \in r : Jump(e.c, e.g, e.vs[i]) \/ Near(e.D[i], CubeDen(e.c, e.g, e.vs[i], e.s), 4 * e.s * VTol(e.g))>>,
   <<"both_at_once", \A i \in r : Near(e.V[i], e.V2[i], 1) /\ Near(e.D[i], e.D2[i], 2 * e.s)>>,
   <<"bounds", \A i \in r : e.V[i] >= 0 /\ e.V[i] <= One /\ e.D[i] >= -1>>,
   <<"arguments_unchanged", e.same>> >>
ComClauses(e) == LET cut == {i \in 1..Len(e.vs) : IsCut(e.c, e.g, e.vs[i])} IN <<
   <<"area", \A i \in 1..Len(e.vs) : Jump(e.c, e.g, e.vs[i]) \/ Near(e.D[i], CubeDen(e.c, e.g, e.vs[i], e.s), 4 * e.s * VTol(e.g))>>,
   <<"center_of_mass", \A i \in cut : CubeDen(e.c, e.g, e.vs[i], e.s) > 500 => \A j \in 1..3 : Near(e.com[i][j], CubeCom(e.c, e.g, e.vs[i], j), 100)>> >>
TetClauses(e) == LET r == 1..Len(e.vs) IN <<
   <<"volume", \A i \in r : TetJump(e.vals, e.vs[i]) \/ Near(e.V[i], TetVol(e.vals, e.vs[i]), 4)>>,
   <<"density", \A i \in r : TetJump(e.vals, e.vs[i]) \/ Near(e.D[i], TetDen(e.vals, e.vs[i], e.s), 8 * e.s)>>,
   <<"arguments_unchanged", e.same>> >>
SphereClauses(e) == LET r == 1..Len(e.vs) IN <<
   <<"volume", \A i \in r : Near(e.V[i], SphereVol(SphereD(e.vs[i] - e.c, Norm2of(e.g))), 12)>>,
   <<"density", \A i \in r : Near(e.D[i], SphereDen(SphereD(e.vs[i] - e.c, Norm2of(e.g))), 12)>> >>
(* grids: the values of all cells in the order of the grid, for each level (in eighths) *)
Nth(D, j) == <<((j - 1) \div (D[2] * D[3])) + 1, (((j - 1) \div D[3]) % D[2]) + 1, ((j - 1) % D[3]) + 1>>
CellDims(e) == LET d == Dims(e.G) w == IF e.wrap THEN 0 ELSE 1 x == IF e.method = "cubes+" THEN 2 ELSE 1 IN <<(d[1] - w) \div x, (d[2] - w) \div x, (d[3] - w) \div x>>
GridV(e, p, v, d) == CASE e.method = "cubes" -> GridCubeVol(e.G, p, v)
                       [] e.method = "tetras" -> GridTetVol(e.G, p, d, v)
                       [] e.method = "cubes+" -> GridExtra(e.G, e.wrap, p, v, GridCubeVol)
                       [] OTHER -> LET f == CellFn(e.G, p) IN SphereVol(SphereD(v - Mean8(e.G, p), Norm2of(f[2])))
GridD(e, p, v, d) == CASE e.method = "cubes" -> GridCubeDen(e.G, p, v)
                       [] e.method = "tetras" -> GridTetDen(e.G, p, d, v)
                       [] e.method = "cubes+" -> GridExtra(e.G, e.wrap, p, v, GridCubeDen)
                       [] OTHER -> LET f == CellFn(e.G, p) IN SphereDen(SphereD(v - Mean8(e.G, p), Norm2of(f[2])))
GridJ(e, p, v, d) == CASE e.method = "cubes" -> GridCubeJump(e.G, p, v)
                       [] e.method = "tetras" -> GridTetJump(e.G, p, d, v)
                       [] e.method = "cubes+" -> ExtraJump(e.G, p, v)
                       [] OTHER -> CellFn(e.G, p)[2] = <<0, 0, 0>> /\ v = Mean8(e.G, p)
GridOk(e, d) == LET D == CellDims(e) IN \A i \in 1..Len(e.vs), j \in 1..(D[1] * D[2] * D[3]) :
    LET p == Nth(D, j) IN GridJ(e, p, e.vs[i], d) \/
        /\ Near(e.V[i][j], GridV(e, p, e.vs[i], d), e.vtol)
        /\ Near(e.D[i][j], GridD(e, p, e.vs[i], d), e.dtol)
GridClauses(e) == LET D == CellDims(e) n == D[1] * D[2] * D[3] IN <<
   <<"cells", \A i \in 1..Len(e.vs) : Len(e.V[i]) = n /\ Len(e.D[i]) = n>>,
   <<"volumes_and_densities", \E d \in (IF e.method = "tetras" THEN Diagonals ELSE {<<0, 0, 0>>}) : GridOk(e, d)>>,
   <<"both_at_once", e.bothsame>>,
   <<"arguments_unchanged", e.same>> >>
(* cells with given values at their centres and gradients *)
GradClauses(e) == LET n == Len(e.cells) IN <<
   <<"volumes", \A i \in 1..Len(e.vs), j \in 1..n : LET c == e.cells[j] IN
        Jump(2 * c[1] - c[2] - c[3] - c[4], <<2 * c[2], 2 * c[3], 2 * c[4]>>, e.vs[i]) \/
        Near(e.V[i][j], CubeVol(2 * c[1] - c[2] - c[3] - c[4], <<2 * c[2], 2 * c[3], 2 * c[4]>>, e.vs[i]), 40)>> >>
(* points on the cut, with weights: area in reciprocal space, brought back to the density of the cell by the driver *)
SampleClauses(e) == LET d == Dims(e.G) C == Cells(e.G, e.wrap) IN <<
   <<"distinct_cells", AllDistinct(Map(e.pts, LAMBDA x: x.cell))>>,
   <<"cells", \A i \in 1..Len(e.pts) : \E p \in C : p = e.pts[i].cell>>,
   <<"no_cut_cell_missed", \A p \in C : GridCubeDen(e.G, p, e.v) > 400 /\ ~GridCubeJump(e.G, p, e.v) => \E i \in 1..Len(e.pts) : e.pts[i].cell = p>>,
   <<"weights_are_areas", \A i \in 1..Len(e.pts) : GridCubeJump(e.G, e.pts[i].cell, e.v) \/ Near(e.pts[i].den, GridCubeDen(e.G, e.pts[i].cell, e.v), e.dtol)>>,
   <<"gradients", \A i \in 1..Len(e.pts) : e.pts[i].grad = CellFn(e.G, e.pts[i].cell)[2]>>,
   <<"centers_of_mass", \A i \in 1..Len(e.pts) : LET f == CellFn(e.G, e.pts[i].cell) IN
        (GridCubeDen(e.G, e.pts[i].cell, e.v) > 500 /\ ~GridCubeJump(e.G, e.pts[i].cell, e.v)) => \A j \in 1..3 : Near(e.pts[i].com[j], CubeCom(f[1], f[2], e.v, j), 150)>> >>
Clauses(e) ==
  IF ~e.ok THEN << <<"raised", FALSE>> >>
  ELSE CASE e.k = "cube" -> CubeClauses(e)
         [] e.k = "com" -> ComClauses(e)
         [] e.k = "tet" -> TetClauses(e)
         [] e.k = "sphere" -> SphereClauses(e)
         [] e.k = "grid" -> GridClauses(e)
         [] e.k = "grad" -> GradClauses(e)
         [] e.k = "samples" -> SampleClauses(e)
         [] OTHER -> << <<"unknown event", FALSE>> >>
Verdict == Judge(Clauses(Trace[l]))
=============================================================================
