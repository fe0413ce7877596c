----------------------------- MODULE TransportMC -----------------------------
(* Changing the coordinates of a cell, one generator of GL(3, Z) after the other: *)
(* velocities, masses and the tensors made of them change as tensors, the Hall    *)
(* tensor as a pseudo tensor.  (The judge compares in the coordinates of the cell.) *)
EXTENDS Transport
CONSTANTS Mx, Depth
VARIABLES v, h, w, m, U, d
vars == <<v, h, w, m, U, d>>
Gens == {<<<<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>, <<<<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>>>>, <<<<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>}
Vec == [I3 -> -Mx..Mx]
Sym == {<<<<a, b, 0>>, <<b, c, e>>, <<0, e, 1>>>> : a \in {0, 1}, b \in {0, 1}, c \in {-1, 0}, e \in {-1, 1}}
Init == /\ v \in Vec /\ h \in Sym /\ w = v /\ m = h /\ U = Eye(3) /\ d = 0
Next == /\ d < Depth /\ d' = d + 1 /\ \E g \in Gens : U' = MMul(g, U) /\ w' = MV(g, w) /\ m' = MMul(MMul(g, m), Transp(g))
        /\ UNCHANGED <<v, h>>
Outer2 == Outer(w) = MMul(MMul(U, Outer(v)), Transp(U))
Symmetric2 == Outer(w) = Transp(Outer(w))
(* inverse on the first two, transposed on the third index, divided by the determinant *)
Pull(t, V, W) == TLCEval([i \in I3 |-> [j \in I3 |-> [k \in I3 |-> SumOver(I3 \X I3 \X I3, LAMBDA q: V[i][q[1]] * V[j][q[2]] * W[q[3]][k] * t[q[1]][q[2]][q[3]])]]])
Pseudo == Pull(Hall(w, m), UInv(U), U) = [i \in I3 |-> [j \in I3 |-> [k \in I3 |-> Det(U) * Hall(v, h)[i][j][k]]]]
(* no force along the velocity *)
Perpendicular == \A i, j \in I3 : SumOver(I3, LAMBDA k: Hall(w, m)[i][j][k] * w[k]) = 0
(* coefficients: Kelvin relation, and inverses *)
L0 == IF Abs(Det(U)) = 1 THEN U ELSE Eye(3)
Kelvin == SeebeckT(<<Transp(L0), Outer(v), Eye(3)>>) = Transp(Peltier(<<L0, Transp(Outer(v)), Eye(3)>>))
Inverse == HallR(Eye(3), Hall(v, h)) = [i \in I3 |-> [j \in I3 |-> [k \in I3 |-> Hall(v, h)[j][i][k]]]]
(* moments: expansion around another point gives the same *)
Shifted == (d = 0 /\ v = Zero(3)) => \A p \in 0..2, k \in -4..4, j \in {1, 2} : LET x(a) == Power(p, a, 8 * k, j) IN Near(Power(p + 1, 0, 8 * k, j), k * x(0) + x(1), 40)
=============================================================================
