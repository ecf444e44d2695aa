------------------------------ MODULE MCCloud ------------------------------
(* Programs over four clouds (empty, uncoloured, two coloured).  A point is <<identity, frame>>, the colour that belongs
   to it is TrueColor: through every program each point keeps it.  Every program is emitted for replay. *)
EXTENDS Cloud, FiniteSets, TLC, Json
CONSTANTS Depth, Check
VARIABLES regs, prog
TrueColor(pt) == IF pt[1] < 10 THEN 0 ELSE pt[1] + 100
New(ids) == LET ps == [i \in DOMAIN ids |-> <<ids[i], 0>>] IN
            [p |-> ps, c |-> IF ids # <<>> /\ TrueColor(ps[1]) # 0 THEN [i \in DOMAIN ids |-> TrueColor(ps[i])] ELSE <<>>]
Init == regs = <<New(<<>>), New(<<1, 2>>), New(<<11, 12>>), New(<<13>>)>> /\ prog = <<>>
Ok(a, b) == ~ Check \/ Joinable(a, b)
Do(op, i, j, new) == regs' = new /\ prog' = Append(prog, <<op, i, j>>)
Move(a) == LET F(pt) == <<pt[1], pt[2] + 1>> IN Map(F, a)
Next == Len(prog) < Depth /\ \E i, j \in DOMAIN regs :
    \/ Do("append", i, j, IF Ok(regs[i], regs[j]) THEN [regs EXCEPT ![i] = Join(regs[i], regs[j])] ELSE regs)
    \/ Do("merge", i, j, IF Ok(regs[i], regs[j]) THEN Append(regs, Join(regs[i], regs[j])) ELSE regs)
    \/ Do("register", i, j, IF Ok(regs[i], regs[j]) THEN Append(regs, Join(Move(regs[i]), Move(regs[j]))) ELSE regs)
    \/ i = j /\ Do("move", i, i, Append(regs, Move(regs[i])))
Spec == Init /\ [][Next]_<<regs, prog>>
InvParallel == \A i \in DOMAIN regs : Parallel(regs[i])
InvOwnColor == \A i \in DOMAIN regs : \A k \in DOMAIN regs[i].p :
    Colored(regs[i]) => regs[i].c[k] = TrueColor(regs[i].p[k])
InvNotLost == \A i \in DOMAIN regs : ~ Colored(regs[i]) => \A k \in DOMAIN regs[i].p : TrueColor(regs[i].p[k]) = 0
Emit == Len(prog) < Depth \/ PrintT(<<"OUT", ToJson(prog)>>)
=============================================================================
