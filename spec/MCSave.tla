------------------------------- MODULE MCSave -------------------------------
(* Saving a project, file system call by file system call, killed at any of them; then loaded. *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Objs, XmlLast
VARIABLES pc, dir, files, alive, loaded
vars == <<pc, dir, files, alive, loaded>>
(* files: name -> written blocks, every file has 2 *)
Order == IF XmlLast THEN Append([i \in 1..Objs |-> i], 0) ELSE <<0>> \o [i \in 1..Objs |-> i]
Init == pc = 0 /\ dir = FALSE /\ files = [f \in {} |-> 0] /\ alive = TRUE /\ loaded = "no"
Mkdir == alive /\ pc = 0 /\ dir' = TRUE /\ pc' = 1 /\ UNCHANGED <<files, alive, loaded>>
Open == /\ alive /\ pc >= 1 /\ pc <= 3 * (Objs + 1) /\ (pc - 1) % 3 = 0
        /\ LET f == Order[(pc - 1) \div 3 + 1] IN files' = [g \in DOMAIN files \cup {f} |-> IF g = f THEN 0 ELSE files[g]]
        /\ pc' = pc + 1 /\ UNCHANGED <<dir, alive, loaded>>
Write == /\ alive /\ pc >= 1 /\ pc <= 3 * (Objs + 1) /\ (pc - 1) % 3 # 0
         /\ LET f == Order[(pc - 1) \div 3 + 1] IN files' = [files EXCEPT ![f] = @ + 1]
         /\ pc' = pc + 1 /\ UNCHANGED <<dir, alive, loaded>>
Kill == alive /\ alive' = FALSE /\ UNCHANGED <<pc, dir, files, loaded>>
Complete(f) == f \in DOMAIN files /\ files[f] = 2
Load == /\ (~ alive \/ pc > 3 * (Objs + 1)) /\ loaded = "no"
        (* the description is read as a whole; an element file that is absent or torn may or may not be noticed *)
        /\ loaded' \in IF ~ Complete(0) THEN {"raised"}
                       ELSE IF \A o \in 1..Objs : Complete(o) THEN {"complete"} ELSE {"raised", "partial"}
        /\ UNCHANGED <<pc, dir, files, alive>>
Next == Mkdir \/ Open \/ Write \/ Kill \/ Load
Spec == Init /\ [][Next]_vars
InvTorn == loaded # "partial"
InvXmlLast == 0 \in DOMAIN files => \A o \in 1..Objs : Complete(o)
InvDone == pc > 3 * (Objs + 1) => loaded \in {"no", "complete"}
=============================================================================
