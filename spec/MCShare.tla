------------------------------ MODULE MCShare ------------------------------
(* Arrays given to and taken from an object of the bindings: the object keeps values, not memory.  mem: contents of memory
   blocks; arg, obj, out: the block of the argument array, of the object and of the array last taken from it (0: none).
   Shares: "none", or what shares memory with the object: "argument", "result". *)
EXTENDS Integers, TLC
CONSTANTS Shares, Values
VARIABLES mem, arg, obj, out, made, got
vars == <<mem, arg, obj, out, made, got>>
Init == mem \in [1..3 -> Values] /\ arg = 1 /\ obj = 0 /\ out = 0 /\ made = 0 /\ got = 0
Make == /\ obj = 0 /\ made' = mem[arg]
        /\ IF Shares = "argument" THEN obj' = arg /\ UNCHANGED mem ELSE obj' = 2 /\ mem' = [mem EXCEPT ![2] = mem[arg]]
        /\ UNCHANGED <<arg, out, got>>
(* the array the object was made from is changed, or ends and its memory is used again *)
PokeArg(v) == mem' = [mem EXCEPT ![1] = v] /\ UNCHANGED <<arg, obj, out, made, got>>
Take == /\ obj # 0 /\ out = 0
        /\ IF Shares = "result" THEN out' = obj /\ UNCHANGED mem ELSE out' = 3 /\ mem' = [mem EXCEPT ![3] = mem[obj]]
        /\ got' = mem'[out'] /\ UNCHANGED <<arg, obj, made>>
PokeOut(v) == out # 0 /\ mem' = [mem EXCEPT ![out] = v] /\ got' = v /\ UNCHANGED <<arg, obj, out, made>>
(* the object ends: its memory is used again *)
Drop(v) == obj # 0 /\ mem' = [mem EXCEPT ![obj] = v] /\ obj' = 0 /\ made' = 0 /\ UNCHANGED <<arg, out, got>>
Again == out # 0 /\ out' = 0 /\ UNCHANGED <<mem, arg, obj, made, got>>
Next == Make \/ Take \/ Again \/ \E v \in Values : PokeArg(v) \/ PokeOut(v) \/ Drop(v)
Spec == Init /\ [][Next]_vars
InvObject == obj # 0 => mem[obj] = made
InvResult == out # 0 => mem[out] = got
=============================================================================
