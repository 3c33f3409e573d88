------------------------------- MODULE Divide -------------------------------
(* How a tree divides its items. A part that is too large for a bucket is    *)
(* tried to be cut by hyperplanes, Tries times at most, the first one whose  *)
(* sides are even enough (below Good) being taken; then the last one is      *)
(* taken if its sides are not too uneven (up to Worst), else every item is   *)
(* put on a side by chance, until they are not. Such a split has no          *)
(* hyperplane, which is stored as a zero normal.                             *)
(*                                                                           *)
(* An item is 10 * group + number. A hyperplane keeps groups apart when there *)
(* are several; the items of one group are the same, and are all on one side *)
(* or one of them on the other.                                              *)
(*                                                                           *)
(* Way: "right", or: "once" (what chance gives is taken as it is), "plane"   *)
(* (the hyperplane that failed is kept), "skip" (chance at once), "some"     *)
(* (any two sides that are not empty will do), "settle" (the last hyperplane *)
(* is taken whatever its sides are).                                         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Items, K, Tries, GoodNum, GoodDen, WorstNum, WorstDen, Way

VARIABLES todo,   \* the parts that are to be divided: <<items, depth>>
          tries,  \* how often a hyperplane was tried for the first of them
          cut,    \* the left side it gave last, or None
          made    \* the splits: [part, left, zero, depth]

vars == <<todo, tries, cut, made>>
None == {"none"}

Max(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
(* l of l + r items are on the left.                                         *)
Even(l, r) == Max(l, r) * GoodDen < GoodNum * (l + r)
Bearable(l, r) == Max(l, r) * WorstDen <= WorstNum * (l + r)

Groups(S) == {x \div 10 : x \in S}
(* What a hyperplane may have on its left.                                   *)
Cuts(S) ==
  IF Cardinality(Groups(S)) > 1
  THEN {{x \in S : (x \div 10) \in G} : G \in (SUBSET Groups(S)) \ {{}, Groups(S)}}
  ELSE {{}, S} \cup {L \in SUBSET S : Cardinality(L) = 1}

Init == todo = <<<<Items, 0>>>> /\ tries = 0 /\ cut = None /\ made = <<>>

Part == todo[1][1]
Depth == todo[1][2]
Sizes(L) == <<Cardinality(L), Cardinality(Part \ L)>>

Bucket ==
  /\ todo # <<>> /\ Cardinality(Part) <= K /\ tries = 0
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<tries, cut, made>>

Take(L, zero) ==
  /\ made' = Append(made, [part |-> Part, left |-> L, zero |-> zero, depth |-> Depth])
  /\ todo' = Tail(todo) \o <<<<L, Depth + 1>>, <<Part \ L, Depth + 1>>>>
  /\ tries' = 0 /\ cut' = None

Big == todo # <<>> /\ Cardinality(Part) > K
Enough(L) ==
  CASE Way = "some" -> L # {} /\ L # Part
    [] OTHER -> Even(Sizes(L)[1], Sizes(L)[2])

Try ==
  /\ Big /\ tries < Tries /\ Way # "skip"
  /\ \E L \in Cuts(Part) :
       IF Enough(L) THEN Take(L, FALSE)
       ELSE tries' = tries + 1 /\ cut' = L /\ UNCHANGED <<todo, made>>

Settle ==
  /\ Big /\ tries = Tries /\ (Way = "settle" \/ Bearable(Sizes(cut)[1], Sizes(cut)[2]))
  /\ Take(cut, FALSE)

Chance ==
  /\ Big
  /\ IF Way = "skip" THEN TRUE ELSE tries = Tries /\ Way # "settle" /\ ~Bearable(Sizes(cut)[1], Sizes(cut)[2])
  /\ \E L \in SUBSET Part :
       IF Way = "once" \/ (Way = "some" /\ L # {} /\ L # Part) \/ Bearable(Cardinality(L), Cardinality(Part \ L))
       THEN Take(L, Way # "plane")
       ELSE UNCHANGED vars

Next == Bucket \/ Try \/ Settle \/ Chance
Spec == Init /\ [][Next]_vars /\ WF_vars(Bucket) /\ WF_vars(Try) /\ WF_vars(Settle) /\ WF_vars(Chance /\ vars' # vars)

-----------------------------------------------------------------------------
(* C27. No side has more than the worst share.                               *)
Balanced == \A j \in 1..Len(made) :
              LET m == made[j] IN Bearable(Cardinality(m.left), Cardinality(m.part \ m.left))
(* Items that no hyperplane divides are on no side of one.                   *)
Honest == \A j \in 1..Len(made) : LET m == made[j] IN m.zero \/ m.left \in Cuts(m.part)
(* Groups that lie apart and are large enough are not divided by chance.     *)
Follows ==
  \A j \in 1..Len(made) :
    LET m == made[j] IN
    (\A L \in Cuts(m.part) : Even(Cardinality(L), Cardinality(m.part \ L))) => ~m.zero
(* Hence trees are shallow, whatever the items are.                          *)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Shallow == \A j \in 1..Len(made) :
             LET m == made[j] IN
             Cardinality(m.part) * Pow(WorstDen, m.depth) <= Cardinality(Items) * Pow(WorstNum, m.depth)
Ends == <>(todo = <<>>)

(* What chance gives is even: the difference of the sides of n items put on  *)
(* one by fair chance, squared, is about n, and 36 n only twice in 10^9      *)
(* times.                                                                    *)
Fair(diff, n) == diff * diff <= 36 * n + 36
=============================================================================
