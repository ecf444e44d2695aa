------------------------------ MODULE Layout ------------------------------
(* Arrays as views of memory, in elements: a view has an offset, a shape and a stride for every axis; it has the same value
   whatever memory order, direction, gaps or padding it has.
   A plan says how an array of any shape of its rank is laid out: the axes from the outermost inwards, for every axis the step
   from one element to the next (2: with a gap, -1: backwards) and the elements of padding behind its last element. *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Abs(x) == IF x < 0 THEN 0 - x ELSE x
(* index vector of the k-th element (from 0) in the order in which the last axis runs fastest *)
RECURSIVE Nth(_, _)
Nth(shape, k) == IF shape = <<>> THEN <<>>
                 ELSE LET inner == Prod(Tail(shape)) IN <<k \div inner>> \o Nth(Tail(shape), k % inner)
RECURSIVE Dot(_, _)
Dot(a, b) == IF a = <<>> THEN 0 ELSE Head(a) * Head(b) + Dot(Tail(a), Tail(b))
Cell(view, k) == view.off + Dot(Nth(view.shape, k), view.strides)
Size(view) == Prod(view.shape)
(* readers of a view, giving its elements with the last axis running fastest *)
Read(buf, view) == [k \in 1..Size(view) |-> buf[Cell(view, k - 1) + 1]]
At(buf, i) == IF i \in DOMAIN buf THEN buf[i] ELSE 0 - 1
(* one that copies memory, and one that takes every element of the first axis to be consecutive *)
Copy(buf, view) == [k \in 1..Size(view) |-> At(buf, view.off + k)]
Rows(buf, view) == [k \in 1..Size(view) |->
    LET row == Prod(Tail(view.shape)) IN At(buf, view.off + ((k - 1) \div row) * view.strides[1] + ((k - 1) % row) + 1)]

(* the layout of a plan *)
Extent(p, shape, a) == shape[a] * Abs(p.step[a]) + p.pad[a]
RECURSIVE Inner(_, _, _)
Inner(p, shape, i) == IF i = Len(p.perm) THEN 1 ELSE Extent(p, shape, p.perm[i + 1]) * Inner(p, shape, i + 1)
Pos(p, a) == CHOOSE i \in DOMAIN p.perm : p.perm[i] = a
Lay(p, shape) ==
    LET str == [a \in DOMAIN shape |-> p.step[a] * Inner(p, shape, Pos(p, a))]
        back == [a \in DOMAIN shape |-> IF str[a] < 0 /\ shape[a] > 0 THEN (shape[a] - 1) * Abs(str[a]) ELSE 0] IN
    [off |-> Dot(back, [a \in DOMAIN shape |-> 1]), shape |-> shape, strides |-> str]
Length(p, shape) == Prod([a \in DOMAIN shape |-> Extent(p, shape, a)])
(* the buffer that holds vals, with other numbers everywhere else *)
Fill(p, shape, vals) == LET v == Lay(p, shape) IN
    [i \in 1..Length(p, shape) |->
        IF \E k \in 1..Len(vals) : Cell(v, k - 1) + 1 = i THEN vals[CHOOSE k \in 1..Len(vals) : Cell(v, k - 1) + 1 = i] ELSE 1000 + i]
Natural(shape) == [a \in DOMAIN shape |-> Prod(SubSeq(shape, a + 1, Len(shape)))]
Contiguous(view) == Size(view) <= 1 \/ \A a \in DOMAIN view.shape : view.shape[a] > 1 => view.strides[a] = Natural(view.shape)[a]
RowsContiguous(view) == Size(view) <= 1 \/ \A a \in 2..Len(view.shape) : view.shape[a] > 1 => view.strides[a] = Natural(view.shape)[a]
=============================================================================
