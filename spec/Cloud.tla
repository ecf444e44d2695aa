------------------------------- MODULE Cloud -------------------------------
(* Point clouds: [p: sequence of points, c: sequence of colours].  c is empty (uncoloured) or parallel to p. *)
EXTENDS Integers, Sequences
Colored(a) == a.c # <<>>
Parallel(a) == a.c = <<>> \/ Len(a.c) = Len(a.p)
(* clouds that can be joined: both coloured, both not, or one of them without points *)
Joinable(a, b) == a.p = <<>> \/ b.p = <<>> \/ Colored(a) = Colored(b)
Join(a, b) == [p |-> a.p \o b.p, c |-> a.c \o b.c]
RECURSIVE JoinAll(_), AllJoinable(_)
JoinAll(s) == IF s = <<>> THEN [p |-> <<>>, c |-> <<>>] ELSE Join(s[1], JoinAll(Tail(s)))
AllJoinable(s) == \A i, j \in DOMAIN s : Joinable(s[i], s[j])
Map(F(_), a) == [p |-> [i \in DOMAIN a.p |-> F(a.p[i])], c |-> a.c]
(* each (point, colour) of b is one of a *)
DrawnFrom(b, a) == Colored(b) = (Colored(a) /\ b.p # <<>>)
    /\ \A i \in DOMAIN b.p : \E j \in DOMAIN a.p : b.p[i] = a.p[j] /\ (Colored(a) => b.c[i] = a.c[j])
=============================================================================
