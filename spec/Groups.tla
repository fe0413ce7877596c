------------------------------- MODULE Groups -------------------------------
(* Symmetry groups as sets of operations, and the commands a user has for     *)
(* building them.  A group is the set of its matrices, whatever list of       *)
(* representatives and inversion flag the library stores for it.              *)
EXTENDS Lib

(* ------------------------------------------------ group theory ------------ *)
MaxOrder(d) == CASE d = 1 -> 2 [] d = 2 -> 12 [] OTHER -> 48   \* finite subgroups of GL(d, Z)
RECURSIVE CloseUnder(_, _, _, _)
(* all products of generators: {} when the group is infinite *)
CloseUnder(G, front, gens, cap) ==
   LET new == {MMul(a, b) : a \in front, b \in gens} \ G IN
   IF new = {} THEN G
   ELSE IF Cardinality(G) + Cardinality(new) > cap THEN {}
   ELSE CloseUnder(TLCEval(G \cup new), new, gens, cap)
Closure(gens, d) == CloseUnder({Eye(d)}, {Eye(d)}, gens, MaxOrder(d))

IsGroup(G, d) == /\ Eye(d) \in G
                 /\ \A a \in G : \A b \in G : MMul(a, b) \in G

Orthogonal(G, d) == \A a \in G : MMul(a, Transp(a)) = Eye(d)
ConjClass(G, a, d) == {MMul(MMul(g, a), UInv(g)) : g \in G}
ConjClasses(G, d) == {ConjClass(G, a, d) : a \in G}
NormalIn(N, G, d) == N \subseteq G /\ \A a \in N : ConjClass(G, a, d) \subseteq N
(* Q represents G/N by elements of G that form a group themselves *)
IsQuotient(Q, G, N, d) == /\ Q \subseteq G /\ IsGroup(Q, d) /\ Q \cap N = {Eye(d)}
                          /\ Cardinality(Q) * Cardinality(N) = Cardinality(G)

(* ------------------------------------------------ named groups ------------ *)
SignedPerms(d) ==
   LET Perms == {p \in [1..d -> 1..d] : \A i, j \in 1..d : i # j => p[i] # p[j]}
       Sgns == [1..d -> {-1, 1}] IN
   {TLCEval([i \in 1..d |-> [j \in 1..d |-> IF p[i] = j THEN s[i] ELSE 0]]) : p \in Perms, s \in Sgns}
O48 == SignedPerms(3)
O24 == {g \in O48 : Det(g) = 1}
MAbs(A) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> Abs(A[i][j])]])
PermM == {g \in O48 : MAbs(g) = g}
Diag == {g \in O48 : MAbs(g) = Eye(3)}
Rot4 == <<<<0, 1, 0>>, <<-1, 0, 0>>, <<0, 0, 1>>>>
MirX(d) == TLCEval([i \in 1..d |-> [j \in 1..d |-> IF i = j THEN (IF i = 1 THEN -1 ELSE 1) ELSE 0]])
MirXY(d) == TLCEval([i \in 1..d |-> [j \in 1..d |-> IF i = j THEN (IF i <= 2 THEN -1 ELSE 1) ELSE 0]])
WithInv(G, inv) == IF inv THEN G \cup {MNeg(g) : g \in G} ELSE G
Powers(g, n, d) == IF n = 1 THEN {Eye(d)} ELSE IF n = 2 THEN {Eye(d), MMul(g, g)} ELSE Closure({g}, d)
(* the documented generators of the proper permutation group *)
EvenPerm == Closure({<<<<0, 0, 1>>, <<0, -1, 0>>, <<1, 0, 0>>>>, <<<<-1, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>>>>}, 3)
Named(name, n, inv, d) ==
  CASE name = "none" -> {Eye(d)}
    [] name = "inv" -> WithInv({Eye(d)}, TRUE)
    [] name = "o1" -> WithInv({Eye(1)}, inv)
    [] name = "o2" -> Powers(<<<<0, 1>>, <<-1, 0>>>>, n, 2)
    [] name = "square" -> SignedPerms(2)
    [] name = "cyclic" -> WithInv(Powers(Rot4, n, 3), inv)
    [] name = "dihedral" -> WithInv(Closure(Powers(Rot4, n, 3) \cup {MirX(3)}, 3), inv)
    [] name = "cubic" -> WithInv(O24, inv)
    [] name = "perm3" -> WithInv(PermM, inv)
    [] name = "even_perm3" -> WithInv(EvenPerm, inv)
    [] name = "mirror3" -> WithInv({g \in Diag : Det(g) = 1}, inv)
    [] name = "mirror_x" -> WithInv({Eye(d), MirX(d)}, inv)
    [] name = "mirror_xy" -> WithInv({Eye(d), MirXY(d)}, inv)
    [] name = "tetrahedral" -> IF inv THEN O24 ELSE {g \in O24 : Det(MAbs(g)) = 1}
    [] OTHER -> {}
CtorNames(d) == CASE d = 1 -> {"none", "inv", "o1"}
                  [] d = 2 -> {"none", "inv", "o2", "square", "mirror_x", "mirror_xy"}
                  [] OTHER -> {"none", "inv", "cyclic", "dihedral", "cubic", "perm3", "even_perm3",
                               "mirror3", "mirror_x", "mirror_xy", "tetrahedral"}

(* invariants a subgroup can be cut out with: constant on conjugacy classes *)
ClassFun(f, g) == CASE f = "det" -> Det(g) [] f = "trace" -> MTr(g)
                    [] f = "abstrace" -> Abs(MTr(g)) [] OTHER -> 0
(* ------------------------------------------------ commands ---------------- *)
Nothing == [ok |-> FALSE, g |-> {}]
Just(G) == [ok |-> TRUE, g |-> G]
IntMats(G) == \A g \in G : \A i \in 1..Len(g) : \A j \in 1..Len(g) : Abs(g[i][j]) < 1000
Apply(regs, c, d) ==
  CASE c.c = "ctor" -> Just(Named(c.name, c.n, c.inv, d))
    [] c.c = "gen" -> LET G == Closure(WithInv(Range1(c.mats), FALSE) \cup (IF c.inv THEN {MNeg(Eye(d))} ELSE {}), d) IN
                      IF G = {} THEN Nothing ELSE Just(G)
    [] c.c = "mul" -> LET G == Closure(regs[c.i] \cup regs[c.j], d) IN IF G = {} THEN Nothing ELSE Just(G)
    [] c.c \in {"copy", "rerep"} -> Just(regs[c.i])
    [] c.c = "transpose" -> Just({Transp(g) : g \in regs[c.i]})
    [] c.c = "dual" -> Just({UInv(Transp(g)) : g \in regs[c.i]})
    [] c.c = "transform" -> Just({MMul(MMul(c.B, g), UInv(c.B)) : g \in regs[c.i]})
    [] c.c = "subgroup" -> LET G == {g \in regs[c.i] : ClassFun(c.f, g) = ClassFun(c.f, Eye(d))} IN
                           IF IsGroup(G, d) THEN Just(G) ELSE Nothing
    [] OTHER -> Nothing
RECURSIVE Run(_, _, _, _)
(* the groups after the first n commands; failing commands leave the registers alone *)
Run(cmds, n, regs, d) == IF n > Len(cmds) THEN regs ELSE
    LET r == Apply(regs, cmds[n], d) IN Run(cmds, n + 1, IF r.ok THEN Append(regs, r.g) ELSE regs, d)
=============================================================================
