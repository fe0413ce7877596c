------------------------------- MODULE FermiMC -------------------------------
(* Writing the surfaces of several bands into one file: every vertex and face *)
(* is one line, faces count the vertices from the beginning of the file.      *)
(* Checked for all volumes of two cells, on marching squares (dimension 2),   *)
(* where the surface is the set of segments that join the edges of a cell.    *)
EXTENDS Fermi
CONSTANTS Bands, NX
n == <<NX, 2>>
VARIABLES vols, band, base, lines
vars == <<vols, band, base, lines>>
Vals == {-3, -1, 2}
Init == /\ vols \in [1..Bands -> [1..(2 * NX) -> Vals]]
        /\ band = 1 /\ base = 0 /\ lines = <<>>
CellEdges(c) == {<<c, 1>>, <<c, 2>>, <<Step(c, 2), 1>>, <<Step(c, 1), 2>>}
Cells == {c \in Nodes(n) : \A i \in 1..2 : c[i] < n[i] - 1}
(* the edges in a fixed order *)
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Write == /\ band <= Bands
         /\ IF ~Cut(vols[band]) THEN UNCHANGED <<base, lines>> ELSE
            LET es == AsSeq(Edges(vols[band], n))
                segs == UNION {{CellEdges(c) \cap Range1(es)} : c \in Cells} \ {{}} IN
            /\ lines' = lines \o <<<<"g", band>>>> \o [i \in 1..Len(es) |-> <<"v", es[i]>>]
                         \o [i \in 1..Cardinality(segs) |-> <<"f", {base + IndexIn(es, x) : x \in AsSeq(segs)[i]}>>]
            /\ base' = base + Len(es)
         /\ band' = band + 1 /\ UNCHANGED vols
Next == Write
Vs == SelectSeq(lines, LAMBDA x: x[1] = "v")
Group(i) == lines[CHOOSE k \in 1..i : lines[k][1] = "g" /\ \A m \in (k + 1)..i : lines[m][1] # "g"][2]
(* every cell is left as often as it is entered, so the curves do not end inside *)
EvenCells == \A b \in 1..Bands : \A c \in Cells : Cardinality(CellEdges(c) \cap Edges(vols[b], n)) \in {0, 2, 4}
(* a face names vertices that cross the band of its own group *)
OwnVertices == \A i \in 1..Len(lines) : lines[i][1] = "f" =>
    \A v \in lines[i][2] : v \in 1..Len(Vs) /\ Vs[v][2] \in Edges(vols[Group(i)], n)
Complete == band > Bands => \A b \in 1..Bands : Cut(vols[b]) <=> \E i \in 1..Len(lines) : lines[i] = <<"g", b>>
(* no crossing, no surface: without an edge between them the nodes are on the same side *)
Separates == \A b \in 1..Bands : Cut(vols[b]) <=> Edges(vols[b], n) # {}
=============================================================================
