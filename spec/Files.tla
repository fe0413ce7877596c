-------------------------------- MODULE Files --------------------------------
(* What model files mean.  A wannier90 file lists full matrices F_R for R and *)
(* -R, together with degeneracies: the model has F_R / deg_R at R.            *)
EXTENDS Models
(* coefficients are scaled by f (a multiple of all degeneracies) *)
Entry(F, deg, f) == IMat(f \div deg, F)
FileAt(Rs, Fs, degs, f, r) == LET i == CHOOSE j \in 1..Len(Rs) : Rs[j] = r IN Entry(Fs[i], degs[i], f)
(* an empty line for every R and -R: the file is hermitian *)
WellFormed(Rs, Fs, degs) == /\ \A i \in 1..Len(Rs) : \E j \in 1..Len(Rs) : Rs[j] = VNeg(Rs[i]) /\ degs[j] = degs[i] /\ Fs[j] = GMDag(Fs[i])
                            /\ AllDistinct(Rs)
Means(m, Rs, Fs, degs, f) == /\ \A i \in 1..Len(Rs) : SumAt(m, Rs[i]) = Entry(Fs[i], degs[i], f)
                             /\ \A r \in SupportOf(m) : r \in Range1(Rs) \/ SumAt(m, r) = ZeroMat(Bands(m))
(* a model as it is used: one of each mirror pair, shortest first *)
HalfList(m) == AllDistinct(m.nb) /\ \A r \in Range1(m.nb) : r = VNeg(r) \/ VNeg(r) \notin Range1(m.nb)
ShortestFirst(m) == m.nb[1] = Zero(Dim(m)) /\ \A i \in 1..(Len(m.nb) - 1) : Norm2(m.nb[i]) <= Norm2(m.nb[i + 1])
SortStep(m, r, F) == MkModel(Append(m.nb, r), Append(m.H, F))
=============================================================================
