------------------------------ MODULE GroupsGen ------------------------------
(* Behaviours of the group algebra: as a state machine whose registers grow   *)
(* by commands.  Checked exhaustively for a small pool; simulated to generate *)
(* command histories that are replayed on the library.                        *)
EXTENDS Groups, Json
CONSTANTS D, Depth, Small
VARIABLES regs, hist
vars == <<regs, hist>>

Shear(d) == TLCEval([i \in 1..d |-> [j \in 1..d |-> IF i = j \/ (i = 1 /\ j = 2) THEN 1 ELSE 0]])
Hex3(d) == CASE d = 2 -> <<<<0, -1>>, <<1, -1>>>>
             [] d = 3 -> <<<<0, -1, 0>>, <<1, -1, 0>>, <<0, 0, 1>>>>
             [] OTHER -> <<<<1>>>>
SmallPool == IF D = 1 THEN {<<<<1>>>>, <<<<-1>>>>}
             ELSE IF D = 2 THEN {<<<<0, 1>>, <<-1, 0>>>>, MirX(2), MirXY(2), Hex3(2)}
             ELSE {Rot4, MirX(3), <<<<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>>>>}
Pool == IF Small THEN SmallPool
        ELSE SignedPerms(D) \cup {Hex3(D), MNeg(Hex3(D))} \cup (IF D > 1 THEN {Shear(D)} ELSE {})
Bases == IF D = 1 THEN {<<<<-1>>>>} ELSE SmallPool \cup {Shear(D), Transp(Shear(D))}
Regs == 1..Len(regs)
GenCmds == {[c |-> "gen", mats |-> <<a>>, inv |-> i] : a \in Pool, i \in BOOLEAN}
       \cup {[c |-> "gen", mats |-> <<a, b>>, inv |-> i] : a \in Pool, b \in Pool, i \in BOOLEAN}
CtorCmds == {[c |-> "ctor", name |-> nm, n |-> k, inv |-> i] : nm \in CtorNames(D), k \in {1, 2, 4}, i \in BOOLEAN}
UnCmds == {[c |-> k, i |-> i] : k \in {"copy", "transpose", "dual"}, i \in Regs}
      \cup {[c |-> "rerep", i |-> i, bits |-> b] : i \in Regs, b \in 0..3}
      \cup {[c |-> "transform", i |-> i, B |-> b] : i \in Regs, b \in Bases}
      \cup {[c |-> "subgroup", i |-> i, f |-> f] : i \in Regs, f \in {"det", "trace", "abstrace"}}
MulCmds == {[c |-> "mul", i |-> i, j |-> j] : i \in Regs, j \in Regs}
Kinds == IF regs = <<>> THEN {"gen", "ctor"} ELSE {"gen", "ctor", "un", "un2", "mul"}
CmdsOf(k) == CASE k = "gen" -> GenCmds [] k = "ctor" -> CtorCmds [] k = "mul" -> MulCmds [] OTHER -> UnCmds
Do(c) == LET r == Apply(regs, c, D) IN
         /\ regs' = IF r.ok THEN Append(regs, r.g) ELSE regs
         /\ hist' = Append(hist, c @@ [fin |-> r.ok])
Init == regs = <<>> /\ hist = <<>>
NextSim == /\ Len(hist) < Depth
           /\ \E k \in {RandomElement(Kinds)} : \E c \in {RandomElement(CmdsOf(k))} : Do(c)
           /\ IF Len(hist') = Depth THEN PrintT("BEH|" \o ToJson(hist')) ELSE TRUE
NextAll == /\ Len(hist) < Depth
           /\ \E k \in Kinds : \E c \in CmdsOf(k) : Do(c)
View == regs
(* ------------------------------------------------ what has to hold -------- *)
Last == regs[Len(regs)]
GroupLaws == regs # <<>> =>
    /\ IsGroup(Last, D)
    /\ \A a \in Last : \E b \in Last : MMul(a, b) = Eye(D) /\ MMul(b, a) = Eye(D)
    /\ \A a \in Last : Abs(Det(a)) = 1
Lagrange == \A i, j \in 1..Len(regs) : regs[i] \subseteq regs[j] =>
                Cardinality(regs[j]) % Cardinality(regs[i]) = 0
Classes == regs # <<>> =>
    LET C == ConjClasses(Last, D) IN
    /\ UNION C = Last
    /\ \A x, y \in C : x # y => x \cap y = {}
    /\ SumOver(C, Cardinality) = Cardinality(Last)
DualDual == regs # <<>> => {UInv(Transp(UInv(Transp(g)))) : g \in Last} = Last
=============================================================================
