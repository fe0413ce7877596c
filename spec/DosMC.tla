--------------------------------- MODULE DosMC ---------------------------------
(* Filling bands: levels rise through every small two band system on two cells.  *)
EXTENDS Dos
CONSTANTS Mx, Methods
VARIABLES sys, v
vars == <<sys, v>>
Grid(a, b, c) == <<<<<<a, b>>, <<a, b>>>>, <<<<c, c>>, <<b, c>>>>>>
Sys(m, a, b, c, gap) == [method |-> m, wrap |-> FALSE, diag |-> <<0, 0, 0>>, bands |-> <<Grid(a, b, c), Grid(a + gap, b + gap, c + gap)>>]
Init == /\ sys \in {Sys(m, a, b, c, g) : m \in Methods, a \in -Mx..Mx, b \in -Mx..Mx, c \in -Mx..Mx, g \in {0, 1, 2 * Mx + 1}}
        /\ v = -8 * Mx - 2
Rise == v < 8 * (3 * Mx + 1) + 2 /\ v' = v + 1 /\ UNCHANGED sys
Next == Rise
InRange == States(sys, v) >= 0 /\ States(sys, v) <= 2 * One
Monotone == [][States(sys, v') >= States(sys, v) - 4]_vars
Ends == /\ (\A b \in 1..2 : v < BandRange8(sys, b)[1]) => States(sys, v) = 0
        /\ (\A b \in 1..2 : v >= BandRange8(sys, b)[2]) => States(sys, v) = 2 * One
(* in the gap one band is full *)
InGap == Isolator(sys, 1) /\ 2 * v = MidGap16(sys, 1) => States(sys, v) = One /\ Density(sys, v) = 0
(* adding states between two levels adds their energy *)
EnergyGrows == [][sys.method = "cubes" => LET dN == States(sys, v') - States(sys, v) dE == Energy(sys, v') - Energy(sys, v) IN
                    /\ dE >= v * dN - 400 /\ dE <= v' * dN + 400]_vars
(* a full band has its mean energy if no cell exceeds the range of the band *)
Inside(b) == \A p \in CellSet(sys) : LET f == FnOf(sys, b, p) r == BandRange8(sys, b) IN LowCorner(f[1], f[2]) >= r[1] /\ LowCorner(f[1], f[2]) + SumSeq(Map(f[2], Abs)) <= r[2]
Mean(b) == MeanOf(sys, LAMBDA p: Mean8(sys.bands[b], p) * One)
FullEnergy == sys.method = "cubes" /\ (\A b \in 1..2 : Inside(b) /\ v >= BandRange8(sys, b)[2]) => Near(Energy(sys, v), Mean(1) + Mean(2), 40)
=============================================================================
