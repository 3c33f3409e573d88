------------------------------ MODULE OrderDef ------------------------------
(* What sorting and the priority queue promise. An element is <<key, id>>.   *)
EXTENDS Integers, Sequences, FiniteSets

Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

Ordered(s) == \A i \in 1..(Len(s) - 1) : ~Less(s[i + 1], s[i])

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameElements(s, t) ==
  /\ Len(s) = Len(t)
  /\ \A x \in {s[i] : i \in 1..Len(s)} \cup {t[i] : i \in 1..Len(t)} : Count(s, x) = Count(t, x)

Sorted(before, after) == Ordered(after) /\ SameElements(before, after)

(* Partial sorting of before[b .. e-1], counted from 0: its m - b smallest   *)
(* come first, in order; nothing else is touched.                            *)
PartlySorted(before, after, b, m, e) ==
  LET range(s) == SubSeq(s, b + 1, e)
  IN /\ Len(after) = Len(before)
     /\ \A i \in 1..Len(before) : (i <= b \/ i > e) => after[i] = before[i]
     /\ SameElements(range(before), range(after))
     /\ Ordered(SubSeq(after, b + 1, m))
     /\ \A i \in (b + 1)..m, j \in (m + 1)..e : ~Less(after[j], after[i])

ValidRange(n, b, m, e) == 0 <= b /\ b <= m /\ m <= e /\ e <= n

(* The queue: a bag of elements as a function from elements to how many.     *)
InBag(bag) == {x \in DOMAIN bag : bag[x] > 0}
Put(bag, x) == [y \in DOMAIN bag \cup {x} |-> (IF y \in DOMAIN bag THEN bag[y] ELSE 0) + (IF y = x THEN 1 ELSE 0)]
Out(bag, x) == [bag EXCEPT ![x] = @ - 1]
Smallest(bag, x) == x \in InBag(bag) /\ \A y \in InBag(bag) : ~Less(y, x)
Size(bag) == LET S == InBag(bag)
                 Sum[T \in SUBSET S] == IF T = {} THEN 0
                                        ELSE LET x == CHOOSE y \in T : TRUE IN bag[x] + Sum[T \ {x}]
             IN Sum[S]
=============================================================================
