--------------------------------- MODULE QEMC ---------------------------------
(* The grammar of namelists against its description by neighboring tokens, for *)
(* all short sequences of tokens; and the life of a crystal between the        *)
(* library, its input files and Quantum Espresso's output: what is restored is *)
(* what was computed.                                                          *)
EXTENDS QE
CONSTANTS MaxLen, Depth
VARIABLES ts, lib, file, steps
vars == <<ts, lib, file, steps>>
Kinds == {"grp", "id", "eq", "num", "com", "end"}
Tok(k) == [k |-> k, s |-> IF k = "id" THEN "x" ELSE IF k = "grp" THEN "g" ELSE "", v |-> 0]
(* which token may follow which *)
Follows(a, b) == CASE a = "grp" -> b \in {"id", "end"} [] a = "id" -> b = "eq" [] a = "eq" -> b = "num"
   [] a = "num" -> b \in {"com", "id", "end"} [] a = "com" -> b \in {"id", "end"} [] a = "end" -> b = "grp"
Local == ts = <<>> \/ (ts[1] = "grp" /\ ts[Len(ts)] = "end" /\ \A i \in 1..(Len(ts) - 1) : Follows(ts[i], ts[i + 1]))
Grammar == Accepts([i \in 1..Len(ts) |-> Tok(ts[i])]) <=> Local
Assignments == LET p == Parse([i \in 1..Len(ts) |-> Tok(ts[i])]) IN p.mode = "out" => Len(p.out) = Cardinality({i \in 1..Len(ts) : ts[i] = "eq"}) /\ Len(p.grps) = Cardinality({i \in 1..Len(ts) : ts[i] = "grp"})
(* crystals *)
As == {<<<<4, 0, 0>>, <<0, 4, 0>>, <<0, 0, 8>>>>, <<<<-4, 0, 4>>, <<0, 4, 4>>, <<-4, 4, 0>>>>, <<<<4, 0, 0>>, <<-2, 3, 0>>, <<1, 1, -5>>>>}
Bs == {<<<<0, 0, 0>>>>, <<<<0, 0, 0>>, <<2, 4, 6>>>>, <<<<-1, 3, 4>>, <<1, -3, -4>>>>}
New(A, b) == [A |-> A, basis |-> b, types |-> [i \in 1..Len(b) |-> IF i = 1 THEN "Ga" ELSE "As"], ecut |-> 40, T |-> 0, rel |-> FALSE]
Init == /\ ts = <<>> /\ steps = 0 /\ file = <<>>
        /\ lib \in {New(A, b) : A \in As, b \in Bs}
Type == steps = 0 /\ Len(ts) < MaxLen /\ lib = New(CHOOSE A \in As : TRUE, CHOOSE b \in Bs : TRUE) /\ \E k \in Kinds : ts' = Append(ts, k) /\ UNCHANGED <<lib, file, steps>>
Edit == \/ \E T \in {0, 300} : lib' = [lib EXCEPT !.T = T]
        \/ \E e \in {30, 45} : lib' = [lib EXCEPT !.ecut = e]
        \/ lib' = [lib EXCEPT !.rel = ~@]
        \/ lib' = [lib EXCEPT !.A = MScale(2, @)]
Crystals == ts = <<>> /\ steps < Depth /\ steps' = steps + 1 /\ UNCHANGED ts /\
        \/ Edit /\ UNCHANGED file
        \/ file' = <<XmlOf(lib)>> /\ UNCHANGED lib
        \/ file # <<>> /\ lib' = FromXml(file[1]) /\ UNCHANGED file
Next == Type \/ Crystals
CanRead == file # <<>> => Readable(file[1])
Restored == file # <<>> => XmlOf(FromXml(file[1])) = file[1]
RoundTrip == FromXml(XmlOf(lib)) = lib
(* centered lattices have the volume of their cell: index of the sublattice of even vectors *)
Centering == \A kind \in {"P", "I", "F", "C"} : Cardinality({v \in (0..1) \X (0..1) \X (0..1) : InCell(kind, v)}) * Vol8(kind) = 8
=============================================================================
