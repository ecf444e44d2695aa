-------------------------------- MODULE Rgbd --------------------------------
(* Multi-page RGB-D files.  A file holds pages in a fixed order, each with its type, and the near plane of its depth
   codes; the order of the types is the order below. *)
EXTENDS Integers, Sequences, FiniteSets
Types == <<"rgb", "invdepth", "category", "instance">>
Rank(t) == CHOOSE i \in 1..4 : Types[i] = t
(* pages: a function from types to contents *)
Ordered(types) == SelectSeq(Types, LAMBDA t : t \in types)
Complete(types) == {"rgb", "invdepth"} \subseteq types /\ types \subseteq {Types[i] : i \in 1..4}
=============================================================================
