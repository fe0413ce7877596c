-------------------------------- MODULE FitMC --------------------------------
(* An optimizer as a state machine that can be interrupted at any point.      *)
(* A step is computed in several parts; only a completed step is assigned.    *)
(* version: how many steps the parameters have seen (Torn when half done).    *)
EXTENDS Fit
CONSTANTS Iterations, Parts, Atomic
VARIABLES phase, it, part, version, g
vars == <<phase, it, part, version, g>>
Torn == -1
Init == phase = "start" /\ it = 0 /\ part = 0 /\ version = 0 /\ g = Log0(FALSE)
Begin == phase = "start" /\ phase' = "loop" /\ UNCHANGED <<it, part, version, g>>
(* evaluate: stop, or log the loss and compute a step *)
Eval == /\ phase = "loop" /\ it < Iterations
        /\ \/ phase' = "final" /\ g' = AddMsg(g, "converged") /\ UNCHANGED <<it, part, version>>
           \/ phase' = "step" /\ part' = 1 /\ g' = AddData(g, it, version) /\ UNCHANGED <<it, version>>
Part == /\ phase = "step" /\ part < Parts /\ part' = part + 1
        /\ version' = IF Atomic THEN version ELSE Torn
        /\ UNCHANGED <<phase, it, g>>
Assign == /\ phase = "step" /\ part = Parts
          /\ phase' = "loop" /\ it' = it + 1 /\ version' = it + 1 /\ UNCHANGED <<part, g>>
Done == phase = "loop" /\ it = Iterations /\ phase' = "final" /\ UNCHANGED <<it, part, version, g>>
Interrupt == phase \in {"loop", "step"} /\ phase' = "final" /\ g' = Abort(g) /\ UNCHANGED <<it, part, version>>
Final == phase = "final" /\ phase' = "end" /\ g' = AddData(g, it, version) /\ UNCHANGED <<it, part, version>>
Next == Begin \/ Eval \/ Part \/ Assign \/ Done \/ Interrupt \/ Final
Protocol == phase = "end" => RunOk(g.stream, Iterations, 1)
NoTornModel == phase = "end" => version \in 0..Iterations
LossOfResult == phase = "end" => g.loss[Len(g.loss)] = version
AbortedFlag == phase = "end" => (g.aborted <=> Position(g.stream, "aborted") # {})
IterationsRise == \A i \in 1..(Len(g.its) - 1) : g.its[i] <= g.its[i + 1]
(* loss functions *)
BB == <<<<0, 2, 5>>, <<1, 3, 4>>>>
RR == <<<<2, 5>>, <<3, 4>>>>
ASSUME /\ Loss2(BB, RR, <<1, 1>>, 1) = 0 /\ Loss2(BB, RR, <<1, 2>>, 0) = 4 + 36 + 4 + 4 /\ MaxErr(BB, RR, 0) = <<2, 3>>
       /\ Windowed2(BB, RR, -9, 9) = 0 /\ Windowed2(RR, BB, -9, 9) = 0 /\ Assigned2(BB, RR, -9, 9) = 0 /\ Best(BB, RR) = {1}
(* a shift of all energies changes nothing, a single window is the whole loss *)
Small == {<<a, b>> : a, b \in 0..2}
ASSUME \A b \in Small, r \in Small : /\ Windowed2(<<b>>, <<r>>, -9, 9) = Loss2(<<b>>, <<r>>, <<1, 1>>, 0)
                                      /\ Assigned2(<<b>>, <<r>>, -9, 9) <= Windowed2(<<b>>, <<r>>, -9, 9)
                                      /\ (b[1] <= b[2] /\ r[1] <= r[2] => Assigned2(<<b>>, <<r>>, -9, 9) = Loss2(<<b>>, <<r>>, <<1, 1>>, 0))
=============================================================================
