----------------------------- MODULE MCCategory -----------------------------
(* An instance with its cached lookup table: every history of queries gives the table's entries, and the
   three ways to a colour (id, name, image) agree. *)
EXTENDS Category, TLC
CONSTANTS MaxRows, Names, Colors, MaxQ
VARIABLES table, lut, last, q
Tables == UNION {[1..n -> [name : Names, color : Colors]] : n \in 0..MaxRows}
Unique(t) == \A i, j \in DOMAIN t : t[i].name = t[j].name => i = j
None == [ok |-> TRUE, v |-> "none"]
Init == table \in {t \in Tables : Unique(t)} /\ lut = <<>> /\ last = [q |-> <<"open">>, r |-> None] /\ q = 0
Ids == -1..(MaxRows + 1)
AskId(i) == last' = [q |-> <<"id", i>>, r |-> ColorOfId(table, i)] /\ UNCHANGED lut
AskName(n) == last' = [q |-> <<"name", n>>, r |-> ColorOfName(table, n)] /\ UNCHANGED lut
Fill == IF lut = <<>> THEN Lut(table) ELSE lut
(* as the implementation does it: through the cached table *)
AskImage(i, j) == /\ lut' = Fill
                  /\ last' = [q |-> <<"image", i, j>>,
                              r |-> IF i < Len(Fill) /\ j < Len(Fill) THEN [ok |-> TRUE, v |-> <<<<Fill[i + 1], Fill[j + 1]>>>>]
                                    ELSE [ok |-> FALSE, v |-> "IndexError"]]
AskLut == lut' = Fill /\ last' = [q |-> <<"lut">>, r |-> [ok |-> TRUE, v |-> Fill]]
Next == q < MaxQ /\ q' = q + 1 /\ UNCHANGED table
        /\ (\E i \in Ids : AskId(i) \/ (\E n \in Names : AskName(n)) \/ AskLut
            \/ (i >= 0 /\ \E j \in 0..MaxRows : AskImage(i, j)))
Spec == Init /\ [][Next]_<<table, lut, last, q>>
InvCache == lut # <<>> => lut = Lut(table)
InvImage == last.q[1] = "image" => last.r = Image(table, <<<<last.q[2], last.q[3]>>>>)
InvId == last.q[1] = "id" => (last.r.ok <=> last.q[2] \in 0..(Len(table) - 1))
InvAgree == last.q[1] = "name" /\ last.r.ok =>
              \E k \in DOMAIN table : table[k].name = last.q[2] /\ ColorOfId(table, k - 1) = last.r
=============================================================================
