------------------------------ MODULE AvgPrec ------------------------------
(* Precision / recall and average precision, exactly: precisions in units of 1/PU, average
   precisions in units of 1/AU (PU is divisible by every rank and count up to 10). *)
EXTENDS Num
PU == 2520
AU == PU * PU

Tp(ms, i) == Cardinality({j \in 1..i : ms[j] # 0})
Prec(ms, i) == (Tp(ms, i) * PU) \div i
Interp(ms, i) == MaxSet({Prec(ms, j) : j \in i..Len(ms)})
(* area under the interpolated curve: each true positive adds 1/n of recall *)
RECURSIVE Area(_, _)
Area(ms, i) == IF i > Len(ms) THEN 0
               ELSE (IF ms[i] # 0 THEN Interp(ms, i) ELSE 0) + Area(ms, i + 1)
AP(ms, n) == Area(ms, 1) * (PU \div n)

(* precision at the first rank whose recall reaches num/den, 0 if never reached *)
SampleRank(ms, n, num, den) == {i \in 1..Len(ms) : Tp(ms, i) * den >= num * n}
SamplePrec(ms, n, num, den, interp) ==
    LET S == SampleRank(ms, n, num, den) IN
    IF S = {} THEN 0
    ELSE IF interp THEN Interp(ms, MinSet(S)) ELSE Prec(ms, MinSet(S))

(* every ranking of the items by decreasing score (ties in any order) *)
RECURSIVE Rankings(_, _)
Rankings(sc, D) ==
    IF D = {} THEN {<<>>}
    ELSE UNION {{<<d>> \o r : r \in Rankings(sc, D \ {d})} :
                d \in {d \in D : \A e \in D : sc[e] <= sc[d]}}
(* the values of the average precision the definition admits for a set D of ranked
   detections, hit[d] \in {0, 1} *)
APs(sc, hit, D, n) == {AP([i \in 1..Len(r) |-> hit[r[i]]], n) : r \in Rankings(sc, D)}
=============================================================================
