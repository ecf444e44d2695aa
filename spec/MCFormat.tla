------------------------------ MODULE MCFormat ------------------------------
(* A reader that consumes a description child by child, as any streaming implementation does
   (last value wins, checks at the end), against the declarative meaning in Format:
   it ends in one of the outcomes the format allows, and an object exists only after every check. *)
EXTENDS Format, TLC
CONSTANTS Texts, MaxKids
VARIABLES root, kids, pos, acc, obj, err
vars == <<root, kids, pos, acc, obj, err>>
Tags == {"x", "y", "z", "w"}
Kid == [tag : Tags, text : Texts]
Init == /\ root \in {"symmetry", "Symmetry"}
        /\ kids \in UNION {[1..n -> Kid] : n \in 0..MaxKids}
        /\ pos = 1 /\ acc = <<"", "", "">> /\ obj = <<>> /\ err = ""
Axis(t) == CASE t = "x" -> 1 [] t = "y" -> 2 [] t = "z" -> 3 [] OTHER -> 0
Done == obj # <<>> \/ err # ""
Reject == ~ Done /\ pos = 1 /\ root # "symmetry" /\ err' = "RuntimeError" /\ UNCHANGED <<root, kids, pos, acc, obj>>
Read == /\ ~ Done /\ root = "symmetry" /\ pos <= Len(kids)
        /\ acc' = IF Axis(kids[pos].tag) = 0 THEN acc
                  ELSE [acc EXCEPT ![Axis(kids[pos].tag)] = IF kids[pos].text \in STypes THEN kids[pos].text ELSE ""]
        /\ pos' = pos + 1 /\ UNCHANGED <<root, kids, obj, err>>
Close == /\ ~ Done /\ root = "symmetry" /\ pos > Len(kids)
         /\ IF (\A i \in 1..3 : acc[i] \in STypes) /\ acc \in ValidSyms
            THEN obj' = acc /\ err' = "" ELSE obj' = <<>> /\ err' = "RuntimeError"
         /\ UNCHANGED <<root, kids, pos, acc>>
Next == Reject \/ Read \/ Close
Spec == Init /\ [][Next]_vars
Outcome == IF obj # <<>> THEN Val(obj) ELSE Exc({err})
InvAllowed == Done => Outcome \in SymOutcomes(root, kids)
InvNoPartial == obj # <<>> => (obj \in ValidSyms /\ err = "" /\ pos = Len(kids) + 1)
InvNineteen == Cardinality(ValidSyms) = 19
(* the order of children with different tags does not matter *)
Swap(s, i) == [j \in DOMAIN s |-> IF j = i THEN s[i + 1] ELSE IF j = i + 1 THEN s[i] ELSE s[j]]
InvOrder == pos = 1 => \A i \in 1..Len(kids) - 1 : SymOutcomes(root, Swap(kids, i)) = SymOutcomes(root, kids)
(* symmetric under renaming of the axes *)
InvAxes == \A s \in AllSyms : ValidSym(s) = ValidSym(<<s[2], s[3], s[1]>>) /\ ValidSym(s) = ValidSym(<<s[2], s[1], s[3]>>)
ASSUME InvAxes /\ InvNineteen
=============================================================================
