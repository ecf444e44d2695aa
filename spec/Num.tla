-------------------------------- MODULE Num --------------------------------
(* Integer helpers.  TLC integers are 32-bit: everything here keeps its intermediate
   values below 2^31 for the argument ranges stated. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a <= b THEN a ELSE b
MaxI(a, b) == IF a >= b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Near(a, b, tol) == a - b <= tol /\ b - a <= tol

SumSeq(s) == LET a[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE a[i - 1] + s[i] IN a[Len(s)]
SumSetF(F(_), S) == MapThenSumSet(F, S)

MapSeq(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
Rng(f) == {f[x] : x \in DOMAIN f}
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)   \* for a, b >= 0

(* floor of the square root, 0 <= n < 2^31 *)
RECURSIVE ISqrtB(_, _, _)
ISqrtB(n, lo, hi) == \* invariant: lo^2 <= n < (hi)^2
    IF hi - lo <= 1 THEN lo
    ELSE LET m == (lo + hi) \div 2 IN
         IF m <= n \div m THEN ISqrtB(n, m, hi) ELSE ISqrtB(n, lo, m)
ISqrt(n) == IF n < 1 THEN 0 ELSE ISqrtB(n, 1, 46341)

(* round(num * scale / den) for num * scale < 2^31, den > 0, num >= 0 *)
DivRound(num, scale, den) == (num * scale + den \div 2) \div den

(* exp(-num/den) * ExpScale, num, den >= 0 and 16 * den, num < 2^31; error a few units *)
ExpScale == 30000
ExpInt == <<30000, 11036, 4060, 1494, 549, 202, 74, 27, 10, 4, 1, 1, 0>>
Exp16 == <<30000, 28182, 26475, 24871, 23364, 21948, 20619, 19369, 18196, 17093, 16058,
           15085, 14171, 13312, 12506, 11748>>
ExpNeg(num, den) ==
    LET k == num \div den
        rem == num % den
        j == (rem * 16) \div den            \* sixteenths
        r16 == (rem * 16) % den             \* remaining (r16 / den) sixteenths
        r == (r16 * 1000) \div den          \* in 1/16000
        \* exp(-r/16000) ~ 1 - u + u^2/2
        lin == ExpScale - (ExpScale * r) \div 16000 + (ExpScale * ((r * r) \div 1000)) \div 512000
    IN IF k > 11 THEN 0
       ELSE LET a == (ExpInt[k + 1] * Exp16[j + 1]) \div ExpScale
            IN (a * lin) \div ExpScale

(* the same for larger arguments, num < 100 * den (relative error of the exponent ~ 1e-5) *)
ExpBig(num, den) ==
    IF den <= 2000000 THEN ExpNeg(num, den)
    ELSE LET k == den \div 100000 IN ExpNeg(num \div k, den \div k)

(* all sequences over S of length n / at most n *)
SeqsOf(S, n) == [1..n -> S]
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
=============================================================================
