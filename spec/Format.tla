------------------------------- MODULE Format -------------------------------
(* The scene file format: which symmetries exist, and what a scene / element / symmetry description
   means - the set of outcomes it may have: a value, or an exception (any of a set of classes).
   A description is a tag and the sequence of its children; a child is a record [tag, text, ...]. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

STypes == {"none", "twoFold", "fourFold", "cylindrical", "spherical"}
None3 == <<"none", "none", "none">>
Num(s, t) == Cardinality({i \in 1..3 : s[i] = t})
(* the nine documented families, counted *)
ValidSym(s) ==
    \/ Num(s, "none") = 3
    \/ Num(s, "none") = 2 /\ Num(s, "spherical") = 0
    \/ Num(s, "twoFold") = 2 /\ (Num(s, "fourFold") = 1 \/ Num(s, "cylindrical") = 1)
    \/ Num(s, "fourFold") = 3
    \/ Num(s, "twoFold") = 3
    \/ Num(s, "spherical") = 3
AllSyms == [1..3 -> STypes]
ValidSyms == {s \in AllSyms : ValidSym(s)}

(* outcomes *)
Val(v) == [ok |-> TRUE, val |-> v, exc |-> {}]
Exc(S) == [ok |-> FALSE, val |-> "", exc |-> S]
AnyExc == {"Exception"}

(* texts of the children with one tag, in order *)
TextsOf(kids, tag) == LET s == SelectSeq(kids, LAMBDA k : k.tag = tag) IN [i \in DOMAIN s |-> s[i].text]
Kids(kids, tag) == SelectSeq(kids, LAMBDA k : k.tag = tag)
OneOf(seq, default) == IF seq = <<>> THEN {default} ELSE {seq[i] : i \in DOMAIN seq}

(* ---- symmetry ---- *)
SymAxis(kids, tag) == OneOf(TextsOf(kids, tag), "")
SymOutcomes(tag, kids) ==
    IF tag # "symmetry" THEN {Exc({"RuntimeError"})}
    ELSE {LET s == <<x, y, z>> IN
          IF \A i \in 1..3 : s[i] \in STypes THEN (IF ValidSym(s) THEN Val(s) ELSE Exc({"RuntimeError"}))
          ELSE Exc({"RuntimeError"}) : x \in SymAxis(kids, "x"), y \in SymAxis(kids, "y"), z \in SymAxis(kids, "z")}
SymStrings(seq) ==
    IF Len(seq) # 3 THEN Exc({"ValueError"})
    ELSE IF \E i \in 1..3 : seq[i] \notin STypes THEN Exc({"ValueError"})
    ELSE IF ValidSym(seq) THEN Val(seq) ELSE Exc({"ValueError"})

(* ---- element ---- kids: id, category (text), pose / bounds (text = a label; "!..." is malformed),
   symmetry (kids), detectionScore, evaluated; everything else is ignored. *)
Malformed == {"!tag", "!few", "!many", "!missing", "!extra"}       \* kinds of malformed pose / bounds
BadScore == {"high", "1,5", ""}
TrueTexts == {"True", "true"}
ElemBad(kids) ==   \* children that make the element unreadable wherever they stand, with what is raised
    UNION {CASE kids[i].tag \in {"pose", "bounds"} /\ kids[i].text \in Malformed -> AnyExc
             [] kids[i].tag = "detectionScore" /\ kids[i].text \in BadScore -> AnyExc
             [] kids[i].tag = "symmetry" /\ (\A o \in SymOutcomes("symmetry", kids[i].kids) : ~ o.ok) -> {"RuntimeError", "ValueError"}
             [] OTHER -> {} : i \in DOMAIN kids}
SymVals(kids) ==
    LET s == Kids(kids, "symmetry") IN
    IF s = <<>> THEN {None3}
    ELSE UNION {{o.val : o \in {p \in SymOutcomes("symmetry", s[i].kids) : p.ok}} : i \in DOMAIN s}
(* a symmetry whose outcome is open (duplicated children): may also raise *)
SymOpen(kids) == \E i \in DOMAIN kids : kids[i].tag = "symmetry" /\ \E o \in SymOutcomes("symmetry", kids[i].kids) : ~ o.ok
Num1(t) == t   \* detection scores are compared as normalised text
(* state: [type, files]  files[id] \in {"good", "bad", "none"} *)
ElemOutcomes(type, tag, kids, files) ==
    IF tag # "element" THEN {Exc({"ValueError"})}
    ELSE LET ids == {t \in OneOf(TextsOf(kids, "id"), "") : TRUE}
             bad == ElemBad(kids)
             fields == {[id |-> i, cat |-> c, pose |-> p, bounds |-> b, sym |-> s, score |-> sc, ev |-> (e \in TrueTexts)] :
                          i \in ids \ {""}, c \in OneOf(TextsOf(kids, "category"), "unknown"),
                          p \in OneOf(TextsOf(kids, "pose"), "identity"), b \in OneOf(TextsOf(kids, "bounds"), "nothing"),
                          s \in SymVals(kids), sc \in OneOf(TextsOf(kids, "detectionScore"), "-1"),
                          e \in OneOf(TextsOf(kids, "evaluated"), "True")}
             fs(f) == IF type = "bounding_box" THEN {Val(f)}
                      ELSE IF type \notin {"voxels", "meshes"} THEN {Exc({"ValueError"})}
                      ELSE IF f.id \in DOMAIN files /\ files[f.id] = "good" THEN {Val(f)}
                      ELSE IF f.id \in DOMAIN files /\ files[f.id] = "bad" THEN {Exc(AnyExc)}
                      ELSE {Exc({"OSError"})}
         IN (IF bad # {} THEN {Exc(bad \cup (IF ids = {""} THEN {"ValueError"} ELSE {}))}
             ELSE UNION {fs(f) : f \in fields} \cup (IF SymOpen(kids) THEN {Exc({"RuntimeError", "ValueError"})} ELSE {})
                  \cup (IF "" \in ids THEN {Exc({"ValueError"})} ELSE {}))

(* ---- scene file ---- xml: "missing" | "empty" | "broken" | "ok"
   children: version / project_type (text), categories (kids: id, url), elements (kids: element descriptions) *)
SceneTypes == {"bounding_box", "voxels", "meshes"}
SceneOk(kids, obs, files) ==    \* obs is an acceptable loaded scene for these children
    /\ obs.type \in OneOf(TextsOf(kids, "project_type"), "")
    /\ obs.version \in OneOf(TextsOf(kids, "version"), "-")
    /\ LET cats == Kids(kids, "categories")
           all == IF cats = <<>> THEN <<>> ELSE FlattenSeq([i \in DOMAIN cats |-> cats[i].kids]) IN
       /\ obs.cid \in OneOf(TextsOf(all, "id"), "-")
       /\ obs.url \in OneOf(TextsOf(all, "url"), "-")
    /\ \E n \in DOMAIN kids :
        /\ kids[n].tag = "elements"
        /\ LET el == SelectSeq(kids[n].kids, LAMBDA k : k.tag = "element")
               outs == [i \in DOMAIN el |-> {o.val : o \in {p \in ElemOutcomes(obs.type, "element", el[i].kids, files) : p.ok}}]
           IN /\ \A j \in DOMAIN obs.objs : \E i \in DOMAIN el : obs.objs[j] \in outs[i]
              /\ \A i \in DOMAIN el : \E j \in DOMAIN obs.objs : \E v \in outs[i] : v.id = obs.objs[j].id
SceneMayRaise(xml, rootTag, kids, files) ==   \* {} : must load;  otherwise what may be raised
    IF xml = "missing" THEN {"OSError"}
    ELSE IF xml # "ok" THEN {"ValueError"}
    ELSE IF rootTag # "scene" THEN {"ValueError"}
    ELSE LET types == OneOf(TextsOf(kids, "project_type"), "")
             els == Kids(kids, "elements")
             all == IF els = <<>> THEN <<>> ELSE SelectSeq(FlattenSeq([i \in DOMAIN els |-> els[i].kids]), LAMBDA k : k.tag = "element")
         IN (IF types \subseteq SceneTypes THEN {} ELSE {"ValueError"})
            \cup (IF els = <<>> THEN {"ValueError"} ELSE {})
            \cup UNION {UNION {UNION {o.exc : o \in ElemOutcomes(t, "element", all[i].kids, files)} : i \in DOMAIN all} : t \in types}
(* must it raise?  (no acceptable outcome) *)
SceneMustRaise(xml, rootTag, kids, files) ==
    \/ xml # "ok" \/ rootTag # "scene"
    \/ LET types == OneOf(TextsOf(kids, "project_type"), "")
           els == Kids(kids, "elements")
           all == IF els = <<>> THEN <<>> ELSE SelectSeq(FlattenSeq([i \in DOMAIN els |-> els[i].kids]), LAMBDA k : k.tag = "element")
       IN \/ types \cap SceneTypes = {}
          \/ els = <<>>
          \/ \A t \in types \cap SceneTypes :
               \E i \in DOMAIN all : \A o \in ElemOutcomes(t, "element", all[i].kids, files) : ~ o.ok
=============================================================================
