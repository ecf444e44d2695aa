------------------------------- MODULE MCCube -------------------------------
(* The geometry of cube maps of every size up to MaxSide, and the scan of an image pixel by pixel into a cloud. *)
EXTENDS CubeMap, TLC, Json
CONSTANTS MaxSide,
          ScanSide,   \* images up to this side are scanned with every choice of valid pixels
          Mirror,     \* the faults: BACK seen from outside
          Swap,       \* UP and DOWN exchanged
          Skip        \* the next colour is taken only for valid pixels
VARIABLES n, all, pos, cloud, valid, taken
vars == <<n, all, pos, cloud, valid, taken>>
Face(k, f, u, v) == IF Mirror /\ f = 0 THEN OnFace(k, f, -u, v) ELSE IF Swap /\ f \in {4, 5} THEN OnFace(k, 9 - f, u, v) ELSE OnFace(k, f, u, v)
D(k, r, c) == Face(k, FaceOf(k, c), Mid(k, c % k), Mid(k, r))
Width == IF n <= ScanSide THEN 6 * n ELSE 0
Init == n \in 1..MaxSide /\ all \in BOOLEAN /\ pos = 0 /\ cloud = <<>> /\ valid = <<>> /\ taken = 0
Put(x) == cloud' = Append(cloud, x)
Scan(ok) ==
    /\ pos < n * Width
    /\ valid' = Append(valid, ok)
    /\ IF ok THEN Put(<<D(n, pos \div Width, pos % Width), IF Skip THEN taken ELSE pos>>)
       ELSE IF all THEN Put(<<<<0, 0, 0>>, -1>>) ELSE UNCHANGED cloud
    /\ taken' = IF ok THEN taken + 1 ELSE taken
    /\ pos' = pos + 1
    /\ UNCHANGED <<n, all>>
Next == \E ok \in BOOLEAN : Scan(ok)
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------------ geometry *)
Pixels == (0..(n - 1)) \X (0..(6 * n - 1))
Ds == {D(n, p[1], p[2]) : p \in Pixels}
Odd == {Mid(n, i) : i \in 0..(n - 1)}
Cube == UNION {{<<s * n, a, b>>, <<a, s * n, b>>, <<a, b, s * n>>} : s \in {-1, 1}, a \in Odd, b \in Odd}
InvRays == pos = 0 => Cardinality(Ds) = 6 * n * n /\ Ds = Cube
InvInverse == pos = 0 => \A p \in Pixels : PixelOf(n, D(n, p[1], p[2])) = p
(* edges of neighbouring faces coincide *)
Edge == {2 * i - n : i \in 0..n}
InvEdges == pos = 0 => \A e \in Edge :
    /\ \A f \in 0..3 : Face(n, f, n, e) = Face(n, (f + 1) % 4, -n, e)
    /\ Face(n, 4, e, n) = Face(n, 2, e, -n) /\ Face(n, 5, e, -n) = Face(n, 2, e, n)
    /\ Face(n, 4, e, -n) = Face(n, 0, -e, -n) /\ Face(n, 5, e, n) = Face(n, 0, -e, n)
    /\ Face(n, 4, -n, e) = Face(n, 1, e, -n) /\ Face(n, 4, n, e) = Face(n, 3, -e, -n)
    /\ Face(n, 5, -n, e) = Face(n, 1, -e, n) /\ Face(n, 5, n, e) = Face(n, 3, e, n)
(* no face is mirrored: right x down points away from the camera *)
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
InvNotMirrored == pos = 0 => \A f \in 0..5 :
    LET o == Face(n, f, 0, 0) IN Dot(Cross(Sub(Face(n, f, 1, 0), o), Sub(Face(n, f, 0, 1), o)), o) = n
(* ------------------------------------------------------------------ clouds *)
Valids == {i \in 1..pos : valid[i]}
InvCount == Len(cloud) = IF all THEN pos ELSE Cardinality(Valids)
InvOrder == LET c == SelectSeq(cloud, LAMBDA x : x[2] # -1) IN \A i \in DOMAIN c : i > 1 => c[i - 1][2] < c[i][2]
InvColour == \A i \in DOMAIN cloud : cloud[i][2] # -1 =>
    valid[cloud[i][2] + 1] /\ cloud[i][1] = Dir(n, cloud[i][2] \div Width, cloud[i][2] % Width) /\ (all => cloud[i][2] = i - 1)
Emit == pos = n * Width /\ Width > 0 => PrintT(<<"OUT", ToJson([n |-> n, all |-> all, valid |-> valid])>>)
=============================================================================
