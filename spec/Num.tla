-------------------------------- MODULE Num --------------------------------
(* Integer arithmetic used by every module.  TLC integers are 32 bit and     *)
(* there are no reals, so physical quantities are fixed point integers:      *)
(*   lengths, depths, stages  cm        speeds  cm/s      times  ms          *)
(*   fractions                1/10000 (ten-thousandths)                      *)
EXTENDS Integers, Sequences, FiniteSets

NAN == -99999           \* "not a number" in a length / value
BADT == -1000000000     \* a time that is not a finite number
HUGE == 1000000000      \* times are saturated here by the recorder
MaxInt == 2147483647

Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumSeq(s) == SumTo(s, Len(s))

RECURSIVE LongDiv(_, _, _, _)
(* digits of a/b after the point: no intermediate value exceeds 10*b        *)
LongDiv(r, b, n, acc) ==
  IF n = 0 THEN acc
  ELSE LongDiv((r * 10) % b, b, n - 1, acc * 10 + ((r * 10) \div b))

(* floor(a * 10^n / b) for 0 <= a, 0 < b <= 2*10^8                           *)
ScaledDiv(a, b, n) == LongDiv(a % b, b, n, a \div b)
Frac(a, b) == ScaledDiv(a, b, 4)

RECURSIVE ISqrtIt(_, _)
ISqrtIt(n, x) == LET y == (x + (n \div x)) \div 2
                 IN IF y >= x THEN x ELSE ISqrtIt(n, y)
ISqrt(n) == IF n <= 0 THEN 0
            ELSE IF n < 4 THEN 1
            ELSE ISqrtIt(n, IF n > 1000000 THEN 46341 ELSE (n \div 2) + 1)

Close(a, b, tol) == Abs(a - b) <= tol
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
=============================================================================
