------------------------------ MODULE MCObjEq ------------------------------
(* Depth = 1: collections, every addition and removal over two keys, two objects and one value that is not an object, from
   every collection of objects (emitted for replay).  Depth = 0: almost-equality is an equivalence.
   Checked is the set of ways of adding that refuse values that are not objects (the real code: all of them). *)
EXTENDS ObjEq, FiniteSets, TLC, Json
CONSTANTS Depth, Checked
VARIABLES c, prog, eq
Keys == 1..2
Good == {1, 2}
Vals == {1, 2, 5}
Pairs == {<<k, v>> : k \in Keys, v \in Vals}
Lists == {<<p>> : p \in Pairs} \cup {<<p, q>> : p, q \in Pairs}
Ways == {"pairs", "mapping", "kwargs", "ior", "construct", "constructkw"}
Objs == [type : Types, id : {1, 2}, pose : {1, 2}, mesh : {<<>>, << <<1, 2>> >>}]
Full(o) == [type |-> o.type, id |-> o.id, cat |-> 1, sym |-> 1, ev |-> TRUE, pose |-> o.pose, score |-> 1,
            mesh |-> IF o.type = "meshes" THEN o.mesh ELSE <<>>]
Init == IF Depth = 0 THEN c = Empty(2) /\ prog = <<>> /\ eq \in {<<Full(x), Full(y), Full(z)>> : x, y, z \in Objs}
        ELSE (* every collection that can exist: the invariant is inductive *)
             c \in [Keys -> {0} \cup Good] /\ prog = << <<"start", c>> >> /\ eq = <<>>
Ok(way, ps) == way \notin Checked \/ AllGood(Good, ps)
Add(way, base, ps) == LET l == [i \in DOMAIN ps |-> IF way \in {"pairs", "ior"} THEN ps[i] ELSE <<ps[i][1], Last(ps, ps[i][1])>>] IN
    IF Ok(way, l) THEN PutAll(base, l) ELSE c
Next == Depth > 0 /\ Len(prog) = 1 /\ UNCHANGED eq /\
    \/ \E p \in Pairs : /\ c' = IF Ok("set", <<p>>) THEN Put(c, p[1], p[2]) ELSE c
                        /\ prog' = Append(prog, <<"set", p[1], p[2]>>)
    \/ \E p \in Pairs : /\ c' = IF c[p[1]] # 0 \/ ~ Ok("setdefault", <<p>>) THEN c ELSE Put(c, p[1], p[2])
                        /\ prog' = Append(prog, <<"setdefault", p[1], p[2]>>)
    \/ \E way \in Ways, ps \in Lists :
          /\ c' = Add(way, IF way \in {"construct", "constructkw"} THEN Empty(2) ELSE c, ps)
          /\ prog' = Append(prog, <<way, ps>>)
    \/ \E k \in Keys : c[k] # 0 /\ c' = Put(c, k, 0) /\ prog' = Append(prog, <<"del", k, 0>>)
Spec == Init /\ [][Next]_<<c, prog, eq>>
InvObjectsOnly == \A k \in Keys : c[k] = 0 \/ c[k] \in Good
InvEquivalence == eq = <<>> \/
    /\ AlmostEq(eq[1], eq[1])
    /\ AlmostEq(eq[1], eq[2]) = AlmostEq(eq[2], eq[1])
    /\ AlmostEq(eq[1], eq[2]) /\ AlmostEq(eq[2], eq[3]) => AlmostEq(eq[1], eq[3])
Emit == Len(prog) < 2 \/ PrintT(<<"OUT", ToJson(prog)>>)
=============================================================================
