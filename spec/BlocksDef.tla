------------------------------ MODULE BlocksDef ------------------------------
(* The building blocks: nodes as views of memory, byte by byte, and small    *)
(* helper functions, in whole numbers. Floating point numbers are encoded    *)
(* here; they are of the form a / 64, with |a| small, so nothing is rounded. *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Dot(a, b, n) == SumTo([k \in 1..n |-> a[k] * b[k]], n)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Between(_, _, _)
Between(n, lo, hi) == IF lo = hi THEN lo
                      ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Between(n, m, hi) ELSE Between(n, lo, m - 1)
Root(n) == Between(n, 0, 40000)
HasRoot(n) == Root(n) * Root(n) = n

Least(n, w) == [k \in 1..w |-> IF k > 4 THEN 0 ELSE (n \div Pow(256, k - 1)) % 256]
RECURSIVE Number(_)
Number(b) == IF b = <<>> THEN 0 ELSE b[1] + 256 * Number(Tail(b))

(* a / 64 as a floating point number of w bytes, smallest byte first.        *)
Float(a, w) ==
  IF a = 0 THEN [k \in 1..w |-> 0]
  ELSE LET m == Abs(a)  e == Log2(m)  neg == IF a < 0 THEN 128 ELSE 0
       IN IF w = 4
          THEN LET frac == (m - Pow(2, e)) * Pow(2, 23 - e)  x == e - 6 + 127
               IN <<frac % 256, (frac \div 256) % 256, frac \div 65536 + (x % 2) * 128, x \div 2 + neg>>
          ELSE LET frac == (m - Pow(2, e)) * Pow(2, 20 - e)  x == e - 6 + 1023
               IN <<0, 0, 0, 0, frac % 256, (frac \div 256) % 256, frac \div 65536 + (x % 16) * 16, x \div 16 + neg>>
(* ... and back; numbers that are not of this form do not occur.             *)
Read(b) ==
  IF \A k \in 1..Len(b) : b[k] = 0 THEN 0
  ELSE LET w == Len(b)
           neg == IF b[w] >= 128 THEN -1 ELSE 1
           x == IF w = 4 THEN (b[4] % 128) * 2 + b[3] \div 128 - 127 ELSE (b[8] % 128) * 16 + b[7] \div 16 - 1023
           frac == IF w = 4 THEN ((b[3] % 128) * 65536 + b[2] * 256 + b[1]) \div 8 ELSE (b[7] % 16) * 65536 + b[6] * 256 + b[5]
           all == Pow(2, 20) + frac
       IN neg * (IF x + 6 >= 20 THEN all * Pow(2, x + 6 - 20) ELSE all \div Pow(2, 20 - x - 6))

Exponent(b) == LET w == Len(b)
               IN IF w = 4 THEN (b[4] % 128) * 2 + b[3] \div 128 - 127 ELSE (b[8] % 128) * 16 + b[7] \div 16 - 1023
Sound(b) == (\A k \in 1..Len(b) : b[k] = 0) \/ Exponent(b) \in -6..13

(* ---- where things are. A shape: bytes of an id and of an element, whether *)
(* there is a lifting factor, the dimension, and the bytes before node 0.    *)
Up(n, m) == ((n + m - 1) \div m) * m
KidsAt(sh) == sh.id
FactorAt(sh) == Up(3 * sh.id, sh.el)
VecAt(sh) == FactorAt(sh) + (IF sh.dot THEN sh.el ELSE 0)
Size(sh) == VecAt(sh) + sh.dim * sh.el
Room(sh) == (Size(sh) - KidsAt(sh)) \div sh.id
At(sh, i) == sh.before + i * Size(sh)

Slice(mem, at, n) == SubSeq(mem, at + 1, at + n)
Put(mem, at, b) == [k \in 1..Len(mem) |-> IF k > at /\ k <= at + Len(b) THEN b[k - at] ELSE mem[k]]
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Join(Tail(ss))
Floats(vs, w) == Join([k \in 1..Len(vs) |-> Float(vs[k], w)])
Ids(ks, w) == Join([k \in 1..Len(ks) |-> Least(ks[k], w)])

Descendants(mem, sh, i) == Number(Slice(mem, At(sh, i), sh.id))
Kid(mem, sh, i, k) == Slice(mem, At(sh, i) + KidsAt(sh) + (k - 1) * sh.id, sh.id)
Kids(mem, sh, i, n) == [k \in 1..n |-> Number(Kid(mem, sh, i, k))]
Norm(mem, sh, i) == Slice(mem, At(sh, i) + KidsAt(sh), sh.el)
Factor(mem, sh, i) == IF sh.dot THEN Read(Slice(mem, At(sh, i) + FactorAt(sh), sh.el)) ELSE 0
Vec(mem, sh, i) == [k \in 1..sh.dim |-> Read(Slice(mem, At(sh, i) + VecAt(sh) + (k - 1) * sh.el, sh.el))]

(* ---- what is done to nodes                                                *)
SetDesc(mem, sh, i, n) == Put(mem, At(sh, i), Least(n, sh.id))
SetKids(mem, sh, i, ks) == Put(mem, At(sh, i) + KidsAt(sh), Ids(ks, sh.id))
SetKid(mem, sh, i, k, x) == Put(mem, At(sh, i) + KidsAt(sh) + (k - 1) * sh.id, Least(x, sh.id))
SetNorm(mem, sh, i, a) == Put(mem, At(sh, i) + KidsAt(sh), Float(a, sh.el))
SetVec(mem, sh, i, vs) == Put(mem, At(sh, i) + VecAt(sh), Floats(vs, sh.el))
SetElement(mem, sh, i, k, a) == Put(mem, At(sh, i) + VecAt(sh) + (k - 1) * sh.el, Float(a, sh.el))
SetFactor(mem, sh, i, a) == IF sh.dot THEN Put(mem, At(sh, i) + FactorAt(sh), Float(a, sh.el)) ELSE mem
Copy(mem, sh, to, from, n) == Put(mem, At(sh, to), Slice(mem, At(sh, from), n))

(* The vector's length, in 64ths.                                            *)
Square(mem, sh, i) == Dot(Vec(mem, sh, i), Vec(mem, sh, i), sh.dim)
Length(mem, sh, i) == Root(Square(mem, sh, i))
Quotient(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
Normalize(mem, sh, i) ==
  LET n == Length(mem, sh, i)  v == Vec(mem, sh, i)
  IN IF n = 0 THEN mem
     ELSE SetFactor(SetVec(mem, sh, i, [k \in 1..sh.dim |-> Quotient(v[k] * 64, n)]), sh, i, Quotient(Factor(mem, sh, i) * 64, n))
(* Angular nodes keep the square of their length; others keep no such thing. *)
InitNode(mem, sh, i) == IF sh.dot THEN mem ELSE SetNorm(mem, sh, i, Square(mem, sh, i) \div 64)

Largest(mem, sh, n) == LET sq == {Square(mem, sh, i) : i \in 0..(n - 1)} IN CHOOSE x \in sq : \A y \in sq : y <= x
RECURSIVE Lift(_, _, _, _)
Lift(mem, sh, n, max) ==
  IF n = 0 THEN mem ELSE SetFactor(Lift(mem, sh, n - 1, max), sh, n - 1, Root(max - Square(mem, sh, n - 1)))
PreProcess(mem, sh, n) == IF sh.dot /\ n > 0 THEN Lift(mem, sh, n, Largest(mem, sh, n)) ELSE mem

(* The margin of a vector (whole numbers), in 4096ths.                       *)
Margin(mem, sh, i, y) == Dot(Vec(mem, sh, i), [k \in 1..sh.dim |-> y[k] * 64], sh.dim) + Factor(mem, sh, i) * Factor(mem, sh, i)
Side(mem, sh, i, y, chance) == LET m == Margin(mem, sh, i, y) IN IF m > 0 THEN 1 ELSE IF m < 0 THEN 0 ELSE chance

(* ---- helper functions                                                     *)
SquaredDistance(a, b, n) == SumTo([k \in 1..n |-> (a[k] - b[k]) * (a[k] - b[k])], n)
Manhattan(a, b, n) == SumTo([k \in 1..n |-> Abs(a[k] - b[k])], n)
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
Least2(a, b) == IF a < b THEN a ELSE b
Values(s) == {s[k] : k \in 1..Len(s)}
Sorted(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]
IsCommon(r, a, b) == Sorted(r) /\ \A x \in Values(r) \cup Values(a) \cup Values(b) : Count(r, x) = Least2(Count(a, x), Count(b, x))
Same(a, b) == Len(a) = Len(b) /\ \A x \in Values(a) \cup Values(b) : Count(a, x) = Count(b, x)
(* q / 16 rounded to p places, halves up: this many units of the last place. *)
Rounded(q, p) == (q * Pow(10, p) + 8) \div 16
PairLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
=============================================================================
