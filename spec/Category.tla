------------------------------ MODULE Category ------------------------------
(* The category table: row k (from 0) is category id k, with a name and an RGB colour.  An instance opens a
   table; its colour lookup table is made on first request.  What a query yields depends on the table only. *)
EXTENDS Num
InTable(t, id) == id >= 0 /\ id < Len(t)
ColorOfId(t, id) == IF InTable(t, id) THEN [ok |-> TRUE, v |-> t[id + 1].color] ELSE [ok |-> FALSE, v |-> "KeyError"]
Rows(t, name) == {k \in DOMAIN t : t[k].name = name}
ColorOfName(t, name) == IF Rows(t, name) # {} THEN [ok |-> TRUE, v |-> t[MaxSet(Rows(t, name))].color]
                        ELSE [ok |-> FALSE, v |-> "KeyError"]
(* an image of non-negative ids *)
ImageOk(t, im) == \A y \in DOMAIN im : \A x \in DOMAIN im[y] : im[y][x] < Len(t)
Image(t, im) == IF ImageOk(t, im) THEN [ok |-> TRUE, v |-> [y \in DOMAIN im |-> [x \in DOMAIN im[y] |-> t[im[y][x] + 1].color]]]
                ELSE [ok |-> FALSE, v |-> "IndexError"]
Lut(t) == [k \in DOMAIN t |-> t[k].color]
=============================================================================
