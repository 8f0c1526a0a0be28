------------------------------ MODULE TraceBase ------------------------------
(* Common part of every trace specification: the recorded events, the cursor,  *)
(* and total verdicts.  Each event yields the set of names of broken clauses;  *)
(* they are printed and the cursor moves on, so all of the trace is judged.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)
TraceStart == atoi(IOEnv.TRACE_START)

Report(i, bad) == IF bad = {} THEN TRUE ELSE PrintT("V|" \o ToString(i) \o "|" \o ToString(bad))

(* the name of a clause, if it is broken *)
Clause(name, holds) == IF holds THEN {} ELSE {name}
=============================================================================
