------------------------------- MODULE CubeMap -------------------------------
(* Cube maps: six faces of n x n pixels side by side, and the ray of every pixel.  Rays are given by integer directions
   on the surface of the cube [-n, n]^3: the middle of a pixel is an odd number of half pixels from the edges.  x points
   to the right, y down and z to the front. *)
EXTENDS Integers, Sequences, FiniteSets
Faces == <<"BACK", "LEFT", "FRONT", "RIGHT", "UP", "DOWN">>
(* the point of face f at u half pixels right of and v half pixels below its middle *)
OnFace(n, f, u, v) ==
    CASE f = 0 -> <<-u, v, -n>>
      [] f = 1 -> <<-n, v, u>>
      [] f = 2 -> <<u, v, n>>
      [] f = 3 -> <<n, v, -u>>
      [] f = 4 -> <<u, -n, v>>
      [] f = 5 -> <<u, n, -v>>
Mid(n, i) == 2 * i + 1 - n
FaceOf(n, col) == col \div n
(* direction of the pixel in row r and column c of the image (from 0) *)
Dir(n, r, c) == OnFace(n, FaceOf(n, c), Mid(n, c % n), Mid(n, r))
(* the inverse: face, row and column of a direction on the cube which is in no two faces *)
Abs(x) == IF x < 0 THEN -x ELSE x
Big(n, d) == {i \in 1..3 : Abs(d[i]) = n}
FaceOfDir(n, d) == CASE Big(n, d) = {1} -> IF d[1] < 0 THEN 1 ELSE 3
                     [] Big(n, d) = {2} -> IF d[2] < 0 THEN 4 ELSE 5
                     [] Big(n, d) = {3} -> IF d[3] < 0 THEN 0 ELSE 2
UVOfDir(n, d) == LET f == FaceOfDir(n, d) IN
    CASE f = 0 -> <<-d[1], d[2]>> [] f = 1 -> <<d[3], d[2]>> [] f = 2 -> <<d[1], d[2]>>
      [] f = 3 -> <<-d[3], d[2]>> [] f = 4 -> <<d[1], d[3]>> [] f = 5 -> <<d[1], -d[3]>>
PixelOf(n, d) == LET uv == UVOfDir(n, d) IN <<(uv[2] + n - 1) \div 2, FaceOfDir(n, d) * n + (uv[1] + n - 1) \div 2>>
=============================================================================
