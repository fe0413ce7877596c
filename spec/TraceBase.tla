------------------------------ MODULE TraceBase ------------------------------
(* Reading a recorded trace: one state per event, walked in chunks so that    *)
(* all TLC workers can judge events at the same time.                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
CH == IF N <= 64 THEN 1 ELSE (N \div 64) + 1
VARIABLE l
TInit == l \in {i \in 1..N : (i - 1) % CH = 0}
TNext == /\ l < N /\ l % CH # 0 /\ l' = l + 1
(* clauses: a sequence of <<name, holds>>; prints the names of those that fail *)
RECURSIVE Failing(_)
Failing(cl) == IF cl = <<>> THEN "" ELSE
    (IF Head(cl)[2] THEN "" ELSE Head(cl)[1] \o " ") \o Failing(Tail(cl))
Judge(cl) == LET f == Failing(cl) IN IF f = "" THEN TRUE ELSE PrintT("FAIL|" \o ToString(l) \o "|" \o f)
=============================================================================
