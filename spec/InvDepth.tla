------------------------------ MODULE InvDepth ------------------------------
(* Inverse-depth coding with Mx codes above 0.  The near plane is p/q metres, a depth n/m metres.
   Code 0 stands for "no measurement" (unknown = depth 0, or farther than the last code reaches). *)
EXTENDS Num
(* code of depth n/m: round half up of near * Mx / depth, saturated at the near plane *)
Enc(Mx, p, q, n, m) ==
    IF n = 0 THEN 0
    ELSE IF n * q <= p * m THEN Mx
    ELSE (2 * p * m * Mx + q * n) \div (2 * q * n)
(* depth of code c as a rational <<num, den>>; <<1, 0>> is infinity *)
Dec(Mx, p, q, c) == IF c = 0 THEN <<1, 0>> ELSE <<p * Mx, q * c>>
(* an 8-bit code with near plane p/q in 16-bit codes with near plane dp/dq *)
Legacy(p, q, dp, dq, c) ==
    IF c = 0 THEN 0
    ELSE IF p * 255 * dq <= dp * q * c THEN 65535
    ELSE (2 * 257 * c * dp * q + dq * p) \div (2 * dq * p)
=============================================================================
