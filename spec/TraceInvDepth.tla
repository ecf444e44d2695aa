---------------------------- MODULE TraceInvDepth ----------------------------
(* Judges recorded conversions (driver invdepth).  Near plane e.p / e.q; lists of codes and depths. *)
EXTENDS InvDepth, TraceBase
VARIABLES l, bad
PINF == 2000000002
(* decode: depth logged in units of 1/(q k) metres, k chosen so that p * Max * k < 2^31 *)
DecodeFails(e) ==
    C("length", Len(e.depth) = Len(e.codes) /\ Len(e.again) = Len(e.codes))
    \cup C("decode", \A i \in DOMAIN e.depth :
              IF e.codes[i] = 0 THEN e.depth[i] = PINF
              ELSE LET v == (e.p * e.max * e.k) \div e.codes[i] IN Near(e.depth[i], v, 2 + v \div 5000000))
    \cup C("not-inverse", \A i \in DOMAIN e.again : e.again[i] = e.codes[i])
    \cup C("image-differs", e.image_same)
    \cup C("not-monotone", \A i \in 1..Len(e.order) - 1 : e.order[i] <= e.order[i + 1])
(* encode: depths n/m metres; where the near plane is not a dyadic number the code may be rounded either way
   at a near tie *)
Ok(e, n, code) ==
    LET v == Enc(e.max, e.p, e.q, n, e.m) IN
    \/ code = v
    \/ ~ e.exact /\ n # 0 /\ n * e.q > e.p * e.m
       /\ LET r == (2 * e.p * e.m * e.max + e.q * n) % (2 * e.q * n) IN
          (r <= (2 * e.q * n) \div 100 /\ code = v - 1) \/ (r >= 2 * e.q * n - (2 * e.q * n) \div 100 - 1 /\ code = v + 1)
    \/ ~ e.exact /\ n * e.q = e.p * e.m /\ code = e.max
EncodeFails(e) ==
    C("encode", Len(e.codes) = Len(e.n) /\ \A i \in DOMAIN e.n : Ok(e, e.n[i], e.codes[i]))
    \cup C("image-differs", e.image_same) \cup C("input-changed", e.same)
(* codes of increasing positive depths *)
MonoFails(e) ==
    C("not-monotone", \A i \in 1..Len(e.codes) - 1 : e.codes[i] >= e.codes[i + 1])
    \cup C("range", \A i \in DOMAIN e.codes : e.codes[i] \in 0..e.max)
    \cup C("saturation", \A i \in DOMAIN e.codes : e.atnear[i] => e.codes[i] = e.max)
    \cup C("far", e.far = 0) \cup C("unknown", e.zero = 0)
LegacyFails(e) ==
    C("legacy", \A i \in DOMAIN e.codes :
         LET c == e.codes[i]
             v == Legacy(e.p, e.q, 3, 10, c)
             den == 2 * 10 * e.p
             r == IF c = 0 THEN den \div 2 ELSE (2 * 257 * c * 3 * e.q + 10 * e.p) % den
         IN \/ e.out[i] = v
            \/ (r <= den \div 100 /\ e.out[i] = v - 1) \/ (r >= den - den \div 100 - 1 /\ e.out[i] = v + 1))
    \cup C("image-differs", e.image_same)
Fails(e) == CASE e.op = "decode" -> DecodeFails(e)
              [] e.op = "encode" -> EncodeFails(e)
              [] e.op = "mono" -> MonoFails(e)
              [] e.op = "legacy" -> LegacyFails(e)
              [] OTHER -> {"unknown-event"}
Init == l = 1 /\ bad = <<>>
Next == \/ /\ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
        \/ /\ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED bad
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
