-------------------------------- MODULE CutsMC --------------------------------
(* A level rises through a cell: the laws of the cut volumes, on every small  *)
(* linear function on a cube and every four values on a tetrahedron.          *)
EXTENDS Cuts
CONSTANTS Mx, TMx
VARIABLES kind, f, v
vars == <<kind, f, v>>
Init == \/ /\ kind = "cube" /\ f \in (-Mx..Mx) \X (-Mx..Mx) \X (-Mx..Mx) /\ v = -3 * Mx - 2
        \/ /\ kind = "tet" /\ f \in (0..TMx) \X (0..TMx) \X (0..TMx) \X (0..TMx) /\ v = -2
Top == IF kind = "cube" THEN 3 * Mx + 2 ELSE TMx + 2
Rise == v < Top /\ v' = v + 1 /\ UNCHANGED <<kind, f>>
Next == Rise
Vol(x) == IF kind = "cube" THEN CubeVol(0, f, x) ELSE TetVol(f, x)
Den(x) == IF kind = "cube" THEN CubeDen(0, f, x, 1) ELSE TetDen(f, x, 1)
InRange == Vol(v) >= 0 /\ Vol(v) <= One
Empty == v = Top => Vol(v) = One
Full == (v = -2 /\ kind = "tet") \/ (v = -3 * Mx - 2) => Vol(v) = 0
Monotone == [][Vol(v') >= Vol(v) - 2]_vars
DensityPositive == Den(v) >= -1
(* the derivative is the derivative: Simpson's rule is exact between integers for cubes (at most quadratic densities) *)
Half(x) == IF kind = "cube" THEN CubeDen(0, VScale(2, f), 2 * x + 1, 2) ELSE TetDen(VScale(2, f), 2 * x + 1, 2)
NoJump(x) == IF kind = "cube" THEN Len(NonZero(f)) >= 2 ELSE ~TetJump(f, x)
Integral == [][(NoJump(v) /\ NoJump(v')) => Near(6 * (Vol(v') - Vol(v)), Den(v) + 4 * Half(v) + Den(v'), 60)]_vars
(* what is not below is above *)
Complement == IF kind = "cube" THEN (NoJump(v) \/ ~Jump(0, f, v)) /\ NonZero(f) # <<>> => Near(CubeVol(0, f, v) + CubeVol(0, VNeg(f), -v), One, 2)
              ELSE (Cardinality({f[i] : i \in 1..4}) > 1 => Near(TetVol(f, v) + TetVol(VNeg(f), -v), One, 2))
(* a linear function: the six tetrahedra of any diagonal add up to the cube *)
G == TLCEval([x \in 1..2 |-> [y \in 1..2 |-> [z \in 1..2 |-> f[1] * (x - 1) + f[2] * (y - 1) + f[3] * (z - 1)]]])
Agree == kind = "cube" => \A d \in Diagonals : Near(GridTetVol(G, <<1, 1, 1>>, d, 8 * v), CubeVol(0, f, v), 8) \/ NonZero(f) = <<>>
(* order of the axes and reflections do not matter *)
Symmetric == kind = "cube" => Near(CubeVol(0, f, v), CubeVol(f[1], <<-f[1], f[3], f[2]>>, v), 0)
(* centre of mass lies in the plane: its value is the level *)
OnPlane == (kind = "cube" /\ IsCut(0, f, v) /\ NonZero(f) # <<>>) =>
              LET m == [i \in 1..3 |-> CubeCom(0, f, v, i)] IN
              /\ Near(f[1] * m[1] + f[2] * m[2] + f[3] * m[3], v * One, 4 * Mx)
              /\ \A i \in 1..3 : m[i] >= -1 /\ m[i] <= One + 1
Sphere == LET d == Clamp(v * 1000, -One, One) IN SphereVol(d) >= 0 /\ SphereVol(d) <= One + 2 /\ Near(SphereVol(d) + SphereVol(-d), One, 4)
=============================================================================
