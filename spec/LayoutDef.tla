------------------------------ MODULE LayoutDef ------------------------------
(* Numbers of 64 bits as eight digits to the base 256, smallest first.       *)
EXTENDS Integers, Sequences

Digits == 8
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
(* Digit sums of a product; what goes beyond the last digit overflows.       *)
Column(a, b, k) == SumTo([i \in 1..k |-> a[i] * b[k + 1 - i]], k)
RECURSIVE Carry(_, _, _)
Carry(c, k, over) == IF k > Digits THEN <<>>
                     ELSE <<(c[k] + over) % 256>> \o Carry(c, k + 1, (c[k] + over) \div 256)
Times(a, b) == Carry([k \in 1..Digits |-> Column(a, b, k)], 1, 0)
Plus(a, b) == Carry([k \in 1..Digits |-> a[k] + b[k]], 1, 0)
Num(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>
AtMostNum(a, b) == \/ a = b
                   \/ \E i \in 1..Digits : a[i] < b[i] /\ \A j \in (i + 1)..Digits : a[j] = b[j]
=============================================================================
