------------------------------ MODULE TensorMC ------------------------------
(* The group mean, built one operation at a time, in every order of a small   *)
(* pool of groups: it is fixed by the group, and odd quantities vanish under  *)
(* inversion.                                                                 *)
EXTENDS Orbits
VARIABLES G, todo, acc, T, rk, pseudo
vars == <<G, todo, acc, T, rk, pseudo>>
Pool == {Closure(g, 2) : g \in {{}, {MNeg(Eye(2))}, {MirX(2)}, {<<<<0, 1>>, <<-1, 0>>>>}, {<<<<0, -1>>, <<1, -1>>>>}}}
Init == /\ G \in Pool /\ todo = G
        /\ rk \in {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 0>>}
        /\ pseudo \in BOOLEAN
        /\ T \in {[i \in 1..Pow(2, rk[1] + rk[2]) |-> IF i = j THEN 1 ELSE 0] : j \in 1..Pow(2, rk[1] + rk[2])}
        /\ acc = Zero(Len(T))
Next == /\ todo # {}
        /\ LET g == CHOOSE x \in todo : TRUE IN
             /\ acc' = VAdd(acc, Act(g, T, 2, rk, pseudo))
             /\ todo' = todo \ {g}
        /\ UNCHANGED <<G, T, rk, pseudo>>
Fixed == todo = {} => \A g \in G : Act(g, acc, 2, rk, pseudo) = acc
(* with contravariant and covariant positions in this order the action is a (right) group action *)
Homomorphism == \A g, h \in G : Act(h, Act(g, T, 2, rk, pseudo), 2, rk, pseudo) = Act(MMul(g, h), T, 2, rk, pseudo)
Parity == (todo = {} /\ MNeg(Eye(2)) \in G /\ (rk[1] + rk[2]) % 2 = 1) => acc = Zero(Len(T))
=============================================================================
