----------------------------- MODULE TraceFormat -----------------------------
(* Judges what the real readers made of a description (driver fmt). *)
EXTENDS Format, TraceBase
VARIABLES l, bad
Among(e, S) == \E i \in DOMAIN e.mro : e.mro[i] \in S
FitsAny(e, outs) ==
    IF e.ok THEN C("accepted", \E o \in outs : o.ok) \cup C("wrong-value", (\E o \in outs : o.ok) => \E o \in outs : o.ok /\ o.val = e.val)
    ELSE C("raised", \E o \in outs : ~ o.ok)
         \cup C("wrong-exception", (\E o \in outs : ~ o.ok) => \E o \in outs : ~ o.ok /\ (o.exc = AnyExc \/ "Exception" \in o.exc \/ Among(e, o.exc)))
Files(e) == [k \in {e.files[i][1] : i \in DOMAIN e.files} |-> (CHOOSE i \in DOMAIN e.files : e.files[i][1] = k)]
FilesF(e) == LET at == Files(e) IN [k \in DOMAIN at |-> e.files[at[k]][2]]
Fails(e) ==
    CASE e.op = "symxml" -> FitsAny(e, SymOutcomes(e.tag, e.kids))
      [] e.op = "symstr" -> FitsAny(e, {SymStrings(e.strings)})
      [] e.op = "combo" ->
           C("constructible", e.ok = ValidSym(e.s)) \cup C("valid-exception", e.ok \/ Among(e, {"ValueError"}))
           \cup C("is-valid", e.isvalid = ValidSym(e.s))
           \cup (IF e.ok THEN C("axes", e.axes = e.s) \cup C("xml-roundtrip", e.xml = e.s /\ e.xmlkids = e.s)
                              \cup C("strings-roundtrip", e.strs = e.s) \cup C("text", e.text = e.s)
                              \cup C("rt-equal", e.rteq)
                 ELSE {})
      [] e.op = "eq" -> C("eq", e.eq = (e.a = e.b)) \cup C("ne", e.ne = (e.a # e.b)) \cup C("eq-bool", e.isbool)
      [] e.op = "elem" -> FitsAny(e, ElemOutcomes(e.type, e.tag, e.kids, FilesF(e)))
      [] e.op = "scene" ->
           LET fs == FilesF(e)
               may == SceneMayRaise(e.xml, e.root, e.kids, fs)
               must == SceneMustRaise(e.xml, e.root, e.kids, fs)
           IN IF e.ok THEN C("accepted", ~ must) \cup C("wrong-scene", must \/ SceneOk(e.kids, e.val, fs))
              ELSE C("raised", may # {}) \cup C("wrong-exception", may = {} \/ "Exception" \in may \/ Among(e, may))
      [] OTHER -> {"unknown-event"}
Init == l = 1 /\ bad = <<>>
Next == \/ /\ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
        \/ /\ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED bad
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
