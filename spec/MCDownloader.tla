----------------------------- MODULE MCDownloader -----------------------------
(* The tool's design, step by step: rounds of downloads by a few workers, then rounds of extractions,
   killed anywhere, started again.  Design: "part" downloads to another name and renames;
   "inplace" writes the archive under its own name; "markfirst" marks before extracting;
   "rmfirst" removes before extracting; "keepbad" never removes damaged archives. *)
EXTENDS Downloader, TLC
CONSTANTS A, W, M, Design, Sick          \* archives, workers, members, design, number of sick runs
VARIABLES zip, ext, mark, phase, try, todo, busy, run, reqs, outs, start
vars == <<zip, ext, mark, phase, try, todo, busy, run, reqs, outs, start>>
All == 1..M
St(a) == [zip |-> zip[a], ext |-> ext[a], mark |-> mark[a]]
Idle == [a \in A |-> "-"]
Init == /\ zip = [a \in A |-> "none"] /\ ext = [a \in A |-> {}] /\ mark = [a \in A |-> FALSE]
        /\ phase = "idle" /\ try = 0 /\ todo = {} /\ busy = Idle /\ run = 0
        /\ reqs = [a \in A |-> 0] /\ outs = [a \in A |-> <<>>] /\ start = [a \in A |-> St(a)]
Healthy == run > Sick
Missing == {a \in A : Wanted(St(a))}
There == {a \in A : zip[a] # "none"}
Begin == /\ phase = "idle" /\ run <= Sick
         /\ run' = run + 1 /\ phase' = (IF Missing = {} THEN "unzip" ELSE "down") /\ try' = 1
         /\ todo' = (IF Missing = {} THEN There ELSE Missing)
         /\ busy' = Idle /\ reqs' = [a \in A |-> 0] /\ outs' = [a \in A |-> <<>>] /\ start' = [a \in A |-> St(a)]
         /\ UNCHANGED <<zip, ext, mark>>
Free == Cardinality({a \in A : busy[a] # "-"}) < W
Request(a) == /\ phase = "down" /\ a \in todo /\ Free /\ busy[a] = "-"
              /\ todo' = todo \ {a} /\ busy' = [busy EXCEPT ![a] = "get"] /\ reqs' = [reqs EXCEPT ![a] = @ + 1]
              /\ zip' = (IF Design = "inplace" THEN [zip EXCEPT ![a] = "bad"] ELSE zip)
              /\ UNCHANGED <<ext, mark, phase, try, run, outs, start>>
Answer(a, o) == /\ busy[a] = "get" /\ (Healthy => o = "ok")
                /\ busy' = [busy EXCEPT ![a] = "-"] /\ outs' = [outs EXCEPT ![a] = Append(@, o)]
                /\ zip' = [zip EXCEPT ![a] = CASE o = "ok" -> "full" [] o = "bad" -> "bad" [] OTHER -> "none"]
                /\ UNCHANGED <<ext, mark, phase, try, todo, run, reqs, start>>
Quiet == todo = {} /\ busy = Idle
DownEnd == /\ phase = "down" /\ Quiet
           /\ IF Missing = {} \/ try = Retries
              THEN phase' = "unzip" /\ try' = 1 /\ todo' = There
              ELSE phase' = phase /\ try' = try + 1 /\ todo' = Missing
           /\ UNCHANGED <<zip, ext, mark, busy, run, reqs, outs, start>>
Extract(a) == /\ phase = "unzip" /\ a \in todo /\ Free /\ busy[a] = "-"
              /\ todo' = todo \ {a}
              /\ IF zip[a] = "bad"
                 THEN busy' = busy /\ zip' = (IF Design = "keepbad" THEN zip ELSE [zip EXCEPT ![a] = "none"]) /\ mark' = mark
                 ELSE /\ busy' = [busy EXCEPT ![a] = "m1"]
                      /\ mark' = (IF Design = "markfirst" THEN [mark EXCEPT ![a] = TRUE] ELSE mark)
                      /\ zip' = (IF Design = "rmfirst" THEN [zip EXCEPT ![a] = "none"] ELSE zip)
              /\ UNCHANGED <<ext, phase, try, run, reqs, outs, start>>
Member(a, i) == LET m == "m" \o ToString(i)  w == "w" \o ToString(i)  n == IF i = M THEN "rm" ELSE "m" \o ToString(i + 1) IN
    \/ /\ busy[a] = m /\ busy' = [busy EXCEPT ![a] = w] /\ ext' = [ext EXCEPT ![a] = @ \ {i}]      \* opened: emptied
       /\ UNCHANGED <<zip, mark, phase, try, todo, run, reqs, outs, start>>
    \/ /\ busy[a] = w /\ busy' = [busy EXCEPT ![a] = n] /\ ext' = [ext EXCEPT ![a] = @ \cup {i}]
       /\ UNCHANGED <<zip, mark, phase, try, todo, run, reqs, outs, start>>
Remove(a) == /\ busy[a] = "rm" /\ zip' = [zip EXCEPT ![a] = "none"] /\ busy' = [busy EXCEPT ![a] = "mark"]
             /\ UNCHANGED <<ext, mark, phase, try, todo, run, reqs, outs, start>>
Mark(a) == /\ busy[a] = "mark" /\ mark' = [mark EXCEPT ![a] = TRUE] /\ busy' = [busy EXCEPT ![a] = "-"]
           /\ UNCHANGED <<zip, ext, phase, try, todo, run, reqs, outs, start>>
UnzipEnd == /\ phase = "unzip" /\ Quiet
            /\ IF There = {} \/ try = Retries THEN phase' = "done" /\ try' = try /\ todo' = {}
               ELSE phase' = phase /\ try' = try + 1 /\ todo' = There
            /\ UNCHANGED <<zip, ext, mark, busy, run, reqs, outs, start>>
Leave == /\ phase = "done" /\ ~ Healthy /\ phase' = "idle" /\ UNCHANGED <<zip, ext, mark, try, todo, busy, run, reqs, outs, start>>
Kill == /\ phase \in {"down", "unzip"} /\ ~ Healthy
        /\ phase' = "idle" /\ todo' = {} /\ busy' = Idle
        /\ UNCHANGED <<zip, ext, mark, try, run, reqs, outs, start>>
Next == Begin \/ DownEnd \/ UnzipEnd \/ Leave \/ Kill
        \/ \E a \in A : Request(a) \/ Extract(a) \/ Remove(a) \/ Mark(a) \/ (\E o \in {"ok", "bad", "fail"} : Answer(a, o)) \/ \E i \in All : Member(a, i)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Begin \/ DownEnd \/ UnzipEnd \/ Leave \/ \E a \in A : Request(a) \/ Extract(a) \/ Remove(a) \/ Mark(a)
                        \/ (\E o \in {"ok", "bad", "fail"} : Answer(a, o)) \/ \E i \in All : Member(a, i))
Pad(s) == [i \in 1..Retries |-> IF i <= Len(s) THEN s[i] ELSE "fail"]
InvMarked == \A a \in A : mark[a] => ext[a] = All
InvSafe == \A a \in A : phase # "idle" \/ run > 0 => Safe(start[a], St(a), All)
InvBounded == \A a \in A : reqs[a] <= Retries /\ (start[a].mark => reqs[a] = 0)
(* the step by step run does what After and Requests say *)
InvAfter == phase = "done" => \A a \in A : St(a) = After(start[a], Pad(outs[a]), All) /\ reqs[a] = Requests(start[a], Pad(outs[a]))
InvConverges == (phase = "done" /\ Healthy /\ Sick > 0) => \A a \in A : (start[a].zip # "bad" => mark[a] /\ ext[a] = All /\ zip[a] = "none")
(* a run that is interrupted leaves an archive whole or not at all *)
InvWhole == phase = "idle" => \A a \in A : zip[a] = "bad" => ("bad" \in {outs[a][i] : i \in DOMAIN outs[a]} \/ start[a].zip = "bad")
Terminates == <>(phase = "done" /\ Healthy)
===============================================================================
