-------------------------- MODULE MCDownloaderEmit --------------------------
(* every state an archive can be found in x every sequence of answers of the server: replayed on the tool *)
EXTENDS Downloader, TLC, Json, FiniteSets
VARIABLES s, outs
Members == 1..3
States == {[zip |-> z, ext |-> x, mark |-> m] : z \in {"none", "full", "bad"}, x \in {{}, {1}, {2, 3}, Members}, m \in BOOLEAN}
Real(t) == (t.mark => t.zip = "none")
Init == s \in {t \in States : Real(t)} /\ outs \in [1..Retries -> {"ok", "bad", "fail"}]
Next == UNCHANGED <<s, outs>>
Spec == Init /\ [][Next]_<<s, outs>>
(* After is a fixed point once complete; what it does is safe; a healthy run after it completes the archive *)
Healthy == [i \in 1..Retries |-> "ok"]
InvOnce == LET t == After(s, outs, Members) IN
    /\ Safe(s, t, Members)
    /\ t.mark => After(t, outs, Members) = t /\ Requests(t, outs) = 0
    /\ t.zip = "none" /\ After(t, Healthy, Members).mark
Emit == PrintT(<<"OUT", ToJson([zip |-> s.zip, ext |-> s.ext, mark |-> s.mark, outs |-> outs])>>)
=============================================================================
