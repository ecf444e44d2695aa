------------------------------ MODULE Downloader ------------------------------
(* What one run of the dataset downloader does to one archive.
   The state of an archive in the destination directory:
     zip   "none", "full" (the archive as published) or "bad" (anything else under the archive's name)
     ext   the members that are extracted completely
     mark  the archive is marked complete
   outs: what the server answers to the first, second, ... request for the archive in this run:
   "ok", "bad" (complete by length, but not the archive), or "fail" (refused, broken off, cut short, ...). *)
EXTENDS Integers, Sequences, FiniteSets
Retries == 3
Wanted(s) == ~ s.mark /\ s.zip = "none"
(* requests until one was answered completely, at most Retries; answer: of the last one *)
Ends(outs) == {i \in 1..Retries : outs[i] # "fail"}
First(outs) == CHOOSE i \in Ends(outs) : \A j \in Ends(outs) : i <= j
Requests(s, outs) == IF ~ Wanted(s) THEN 0 ELSE IF Ends(outs) = {} THEN Retries ELSE First(outs)
Got(s, outs) == IF ~ Wanted(s) THEN s.zip ELSE IF Ends(outs) = {} THEN "none" ELSE IF outs[First(outs)] = "ok" THEN "full" ELSE "bad"
(* an uninterrupted run with room on the disk *)
After(s, outs, all) ==
    LET z == Got(s, outs) IN
    IF z = "full" THEN [zip |-> "none", ext |-> all, mark |-> TRUE]
    ELSE [s EXCEPT !.zip = "none"]
(* what every run keeps, however it ends *)
Safe(b, a, all) ==
    /\ (a.mark /\ ~ b.mark) => a.ext = all                             \* marked only when extracted
    /\ (b.zip = "full" /\ a.zip # "full") => a.ext = all               \* deleted only when extracted
    /\ b.mark => a = b                                                 \* complete archives are left alone
===============================================================================
