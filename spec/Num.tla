-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact 64-bit signed integers on top of TLC's 32-bit ones.  A number is  *)
(* a triple <<a, b, c>> standing for a*2^42 + b*2^21 + c with              *)
(* 0 <= b, c < 2^21; it is an i64 exactly when -2^21 <= a < 2^21.          *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

B == 2097152

Norm(a, b, c) ==
    LET bb == b + (c \div B)
        aa == a + (bb \div B)
    IN  <<aa, bb % B, c % B>>

Zero == <<0, 0, 0>>
IMax == <<B - 1, B - 1, B - 1>>
IMin == <<-B, 0, 0>>

N(i) == Norm(0, 0, i)                      \* small integer -> number

InI64(x) == /\ -B <= x[1]
            /\ x[1] < B

NAdd(x, y) == Norm(x[1] + y[1], x[2] + y[2], x[3] + y[3])
NNeg(x) == Norm(-x[1], -x[2], -x[3])
NSub(x, y) == NAdd(x, NNeg(y))
NMul1000(x) == Norm(x[1] * 1000, x[2] * 1000, x[3] * 1000)

\* floor division by 1000 of a non-negative number
NDiv1000(x) ==
    LET q1 == x[1] \div 1000
        t2 == (x[1] % 1000) * B + x[2]
        q2 == t2 \div 1000
        t3 == (t2 % 1000) * B + x[3]
    IN  <<q1, q2, t3 \div 1000>>

NLt(x, y) == \/ x[1] < y[1]
             \/ x[1] = y[1] /\ x[2] < y[2]
             \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
NLe(x, y) == x = y \/ NLt(x, y)
NNeg0(x) == x[1] < 0                       \* x is negative

\* number -> TLC integer, clipped to +-Big (used for indexes and counts)
Big == 1000000000
Clip(x) == IF x[1] = 0 /\ x[2] < 400 THEN x[2] * B + x[3]
           ELSE IF x[1] >= 0 THEN Big
           ELSE IF x[1] = -1 /\ x[2] > B - 400 THEN (x[2] - B) * B + x[3]
           ELSE -Big
=============================================================================
