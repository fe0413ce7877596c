------------------------------- MODULE FilesMC -------------------------------
(* A reader of wannier90 files, one block after the other, in every order of  *)
(* the blocks: a block whose mirror image is known already is skipped.        *)
EXTENDS Files
VARIABLES todo, nb, H
vars == <<todo, nb, H>>
A0 == <<<<<<1, 0>>, <<1, 2>>>>, <<<<1, -2>>, <<-1, 0>>>>>>
A1 == <<<<<<2, 2>>, <<0, -4>>>>, <<<<6, 0>>, <<0, 0>>>>>>
A2 == <<<<<<3, 0>>, <<0, 3>>>>, <<<<0, 0>>, <<6, -3>>>>>>
Rs == <<<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<1, 1>>, <<-1, -1>>>>
Fs == <<A0, A1, GMDag(A1), A2, GMDag(A2)>>
Ds == <<1, 2, 2, 3, 3>>
F == 6
Init == todo = 1..5 /\ nb = <<>> /\ H = <<>>
Next == \E i \in todo : /\ todo' = todo \ {i}
          /\ IF Rs[i] # VNeg(Rs[i]) /\ VNeg(Rs[i]) \in Range1(nb) THEN UNCHANGED <<nb, H>>
             ELSE nb' = Append(nb, Rs[i]) /\ H' = Append(H, Entry(Fs[i], Ds[i], F))
(* the zero block has to be moved to the front before it is a model *)
Front == LET z == CHOOSE i \in 1..Len(nb) : nb[i] = <<0, 0>> idx == <<z>> \o SelectSeq([i \in 1..Len(nb) |-> i], LAMBDA i: i # z) IN
    MkModel([i \in 1..Len(nb) |-> nb[idx[i]]], [i \in 1..Len(nb) |-> H[idx[i]]])
Read == (todo = {}) => (HalfList(Front) /\ Means(Front, Rs, Fs, Ds, F))
Ok == WellFormed(Rs, Fs, Ds)
=============================================================================
