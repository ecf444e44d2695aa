----------------------------- MODULE TraceBase -----------------------------
(* Reading a recorded trace and writing a total verdict.  A trace module walks the log, one
   step per event, collecting the set of failing clause names of every event. *)
EXTENDS Json, IOUtils, TLC, Sequences, Integers
Log == ndJsonDeserialize(IOEnv.VF_TRACE)
N == Len(Log)
C(name, ok) == IF ok THEN {} ELSE {name}
Note(bad, line, fails) ==
    IF fails = {} \/ Len(bad) >= 40 THEN bad ELSE Append(bad, [line |-> line, clauses |-> fails])
Report(bad) == JsonSerialize(IOEnv.VF_OUT, [n |-> N, bad |-> bad])
=============================================================================
