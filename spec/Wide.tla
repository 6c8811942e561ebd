-------------------------------- MODULE Wide --------------------------------
(* Amounts beyond TLC's 32 bit integers: pairs <<q, r>> standing for          *)
(* q * 2^30 + r with 0 <= r < 2^30.                                           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

WBase == 1073741824
W0 == <<0, 0>>
N(x) == <<0, x>>
U32Max == <<3, WBase - 1>>

WAdd(a, b) == LET r == a[2] + b[2] IN IF r >= WBase THEN <<a[1] + b[1] + 1, r - WBase>> ELSE <<a[1] + b[1], r>>
\* a - b for b <= a
WSub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, WBase - (b[2] - a[2])>>
WLeq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
WLess(a, b) == WLeq(a, b) /\ a # b
WMax(a, b) == IF WLeq(a, b) THEN b ELSE a
WMin(a, b) == IF WLeq(a, b) THEN a ELSE b
RECURSIVE WMul(_, _)
WMul(k, a) == IF k = 0 THEN W0 ELSE IF k = 1 THEN a ELSE LET h == WMul(k \div 2, a) IN IF k % 2 = 0 THEN WAdd(h, h) ELSE WAdd(a, WAdd(h, h))
WSumOf(S, f(_)) == FoldSet(LAMBDA v, acc : WAdd(f(v), acc), W0, S)
WMaxOf(S) == FoldSet(LAMBDA v, acc : WMax(v, acc), W0, S)
RECURSIVE WTotal(_)
WTotal(s) == IF s = <<>> THEN W0 ELSE WAdd(Head(s), WTotal(Tail(s)))
\* what fits 32 bits of it
Sat32(a) == WMin(a, U32Max)
SatAdd(a, b) == Sat32(WAdd(a, b))
SatSub(a, b) == IF WLeq(b, a) THEN WSub(a, b) ELSE W0
=============================================================================
