------------------------------- MODULE MCRgbd -------------------------------
(* Files written page after page (data, directory with the link to the next page, name), saves that are refused, files
   cut off at any point, and a reader that follows the links.  A load gives everything that was saved or fails. *)
EXTENDS Rgbd, TLC, Json
CONSTANTS CheckNext,   \* a linked page that cannot be read is an error (FALSE: the file ends there)
          CheckCount,  \* every page says how many there are (FALSE: not looked at)
          CheckName,   \* a page without name is guessed only in files of two pages (FALSE: always)
          Early,       \* a refused save already replaced the file (the fault)
          Steps
VARIABLES file,   \* "none" or [types, cut]: types in order; cut: <<0, "">> or <<page, what was cut first>>
          want,   \* what the file should hold
          got,    \* result of the last load
          h
vars == <<file, want, got, h>>
Sets == {{"rgb", "invdepth"}, {"rgb", "invdepth", "category"}, {"rgb", "invdepth", "instance"}, {"rgb", "invdepth", "category", "instance"}}
None == [types |-> <<>>, cut |-> <<0, "">>]
Init == file = None /\ want = <<>> /\ got = <<"nothing">> /\ h = <<>>
Do(x) == Len(h) < Steps /\ h' = Append(h, x)
Save(s) == Do([op |-> "save", types |-> Ordered(s)]) /\ file' = [types |-> Ordered(s), cut |-> <<0, "">>] /\ want' = Ordered(s) /\ UNCHANGED got
Refuse == /\ Do([op |-> "refuse"])
          /\ file' = IF Early THEN [types |-> <<>>, cut |-> <<0, "">>] ELSE file
          /\ UNCHANGED <<want, got>>
Cut(k, what) == file.types # <<>> /\ file.cut[1] = 0 /\ Do([op |-> "cut", page |-> k, what |-> what]) /\ file' = [file EXCEPT !.cut = <<k, what>>] /\ UNCHANGED <<want, got>>
Guess(t) == IF t = "rgb" THEN "rgb" ELSE "invdepth"
N == Len(file.types)
(* <<type, page>> pairs in the order of reading; a later page of a type replaces an earlier one *)
Pairs(k, named) == [i \in 1..k |-> <<IF i < k \/ named THEN file.types[i] ELSE Guess(file.types[i]), i>>]
Last(ps) == {ps[i] : i \in {i \in DOMAIN ps : \A j \in DOMAIN ps : ps[j][1] = ps[i][1] => j <= i}}
Good(ps, k) == IF CheckCount /\ k < N THEN {<<"error", 0>>} ELSE Last(ps)
Error == {<<"error", 0>>}
Read == IF N = 0 THEN Error
        ELSE IF file.cut[1] = 0 THEN Good(Pairs(N, TRUE), N)
        ELSE LET k == file.cut[1] what == file.cut[2] IN
             IF what \in {"data", "dir"} THEN IF k = 1 \/ CheckNext THEN Error ELSE Good(Pairs(k - 1, TRUE), k - 1)
             ELSE IF CheckName /\ N > 2 THEN Error
             ELSE IF what = "name" /\ k < N /\ CheckNext THEN Error
             ELSE Good(Pairs(k, FALSE), k)
Load == Do([op |-> "load"]) /\ got' = <<Read, file.types, want>> /\ UNCHANGED <<file, want>>
Next == (\E s \in Sets : Save(s)) \/ Refuse \/ Load \/ \E k \in 1..N, what \in {"data", "dir", "link", "name"} : Cut(k, what)
Spec == Init /\ [][Next]_vars
Whole(ts) == {<<ts[i], i>> : i \in DOMAIN ts}
InvAllOrNothing == Len(got) = 3 => got[1] = Error \/ (got[1] = Whole(got[2]) /\ got[2] # <<>>)
InvKept == file.types = want
InvReads == file.cut[1] = 0 /\ want # <<>> => Read = Whole(want)
Emit == Len(h) = Steps => PrintT(<<"OUT", ToJson(h)>>)
=============================================================================
