------------------------------ MODULE MetricDef ------------------------------
(* The angular distance sqrt(2 - 2cos) of vectors of small integers, without *)
(* rounding: a cosine is kept as sign and square, <<s, n, d>> standing for   *)
(* s * sqrt(n / d).                                                          *)
EXTENDS Integers, Sequences

RECURSIVE DotTo(_, _, _)
DotTo(u, v, n) == IF n = 0 THEN 0 ELSE u[n] * v[n] + DotTo(u, v, n - 1)
Dot(u, v) == DotTo(u, v, Len(u))
Sq(x) == x * x
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
IsZero(v) == \A i \in 1..Len(v) : v[i] = 0

(* A zero vector is at a right angle to everything, itself included.         *)
Cos(u, v) == IF IsZero(u) \/ IsZero(v) THEN <<0, 0, 1>>
             ELSE <<Sign(Dot(u, v)), Sq(Dot(u, v)), Dot(u, u) * Dot(v, v)>>

(* Signed squares as fractions, compared.                                    *)
CosLess(a, b) == a[1] * a[2] * b[3] < b[1] * b[2] * a[3]
CosEq(a, b) == a[1] * a[2] * b[3] = b[1] * b[2] * a[3]
Parallel(u, v) == /\ ~IsZero(u) /\ ~IsZero(v) /\ Dot(u, v) > 0
                  /\ \A i, j \in 1..Len(u) : u[i] * v[j] = u[j] * v[i]

(* cos is at least (at most) m thousandths.                                  *)
Thousand(m) == <<Sign(m), Sq(m), 1000000>>
Scaled(a, m) == a[1] * a[2] * 1000000 - Sign(m) * Sq(m) * a[3]
AtLeast(a, m) == Scaled(a, m) >= 0
AtMost(a, m) == Scaled(a, m) <= 0
=============================================================================
