------------------------------- MODULE Search -------------------------------
(* The search of an index with two trees: all nodes wait in a queue with a   *)
(* priority, the best one is taken out, a split puts its children in, a leaf *)
(* gives its items as candidates, until there are enough. Which one of the   *)
(* equally good nodes is taken is left open. What it answers has to be what  *)
(* SearchDef says, for all margins, distances, k and budgets.                *)
EXTENDS SearchDef, TLC

CONSTANTS Margins, MaxBudget, Shape, Dists

(* The splits with their children, and the leaves with their items. Roots    *)
(* are 1 and 2.                                                              *)
KidsOf == ( "two" :> (1 :> <<3, 4>> @@ 3 :> <<5, 6>> @@ 2 :> <<7, 8>>)
         @@ "deep" :> (1 :> <<3, 4>> @@ 4 :> <<5, 6>> @@ 2 :> <<7, 8>> @@ 7 :> <<9, 10>>)
         @@ "bucket" :> (1 :> <<3, 4>>) )
ItemsOf == ( "two" :> (4 :> {3} @@ 5 :> {1} @@ 6 :> {2} @@ 7 :> {1, 3} @@ 8 :> {2})
          @@ "deep" :> (3 :> {2} @@ 5 :> {1, 3} @@ 6 :> {4} @@ 8 :> {1} @@ 9 :> {2} @@ 10 :> {3, 4})
          @@ "bucket" :> (2 :> {1, 2} @@ 3 :> {1} @@ 4 :> {2}) )
Kids == KidsOf[Shape]
T == ItemsOf[Shape]
Leaves == DOMAIN T
Splits == DOMAIN Kids
Roots == {1, 2}
Items == UNION {T[x] : x \in Leaves}
Inf == 1000

VARIABLES m,        \* split -> margin of the query
          D,        \* item -> distance
          k, b,     \* what is asked for; -1: the default budget
          queue,    \* {<<priority, node>>}
          seen,     \* leaves taken so far, in order
          cnt, done

vars == <<m, D, k, b, queue, seen, cnt, done>>

Init ==
  /\ m \in [Splits -> Margins]
  /\ D \in [Items -> Dists]
  /\ k \in 0..(Cardinality(Items) + 1)
  /\ b \in -1..MaxBudget
  /\ queue = {<<Inf, r>> : r \in Roots}
  /\ seen = <<>> /\ cnt = 0 /\ done = FALSE

B == Budget(b, k, 2)

Take ==
  /\ ~done /\ cnt < B /\ queue # {}
  /\ \E e \in queue :
       /\ \A f \in queue : f[1] <= e[1]
       /\ IF e[2] \in Leaves
          THEN /\ queue' = queue \ {e}
               /\ seen' = Append(seen, e[2])
               /\ cnt' = cnt + Cardinality(T[e[2]])
          ELSE /\ queue' = (queue \ {e}) \cup
                    {<<Least(e[1], -m[e[2]]), Kids[e[2]][1]>>, <<Least(e[1], m[e[2]]), Kids[e[2]][2]>>}
               /\ UNCHANGED <<seen, cnt>>
  /\ UNCHANGED <<m, D, k, b, done>>

Stop ==
  /\ ~done /\ (cnt >= B \/ queue = {})
  /\ done' = TRUE
  /\ UNCHANGED <<m, D, k, b, queue, seen, cnt>>

Next == Take \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
LeafSeq == CHOOSE s \in [1..Cardinality(Leaves) -> Leaves] :
             \A i, j \in 1..Cardinality(Leaves) : i < j => s[i] < s[j]
Leaf == [j \in 1..Len(LeafSeq) |-> [sz |-> Cardinality(T[LeafSeq[j]]), it |-> T[LeafSeq[j]]]]

Parent(x) == CHOOSE p \in Splits : x \in {Kids[p][1], Kids[p][2]}
RECURSIVE EffOf(_)
EffOf(x) == IF x \in Roots THEN Inf
            ELSE LET p == Parent(x) IN Least(EffOf(p), IF Kids[p][1] = x THEN -m[p] ELSE m[p])
Eff == [j \in 1..Len(LeafSeq) |-> EffOf(LeafSeq[j])]

Cands == UNION {T[seen[j]] : j \in 1..Len(seen)}
(* The answer: the k nearest candidates, ties by number.                     *)
Before(x, y) == D[x] < D[y] \/ (D[x] = D[y] /\ x < y)
Rank(x, C) == Cardinality({y \in C : Before(y, x)})
Top(C, n) == [j \in 1..Least(n, Cardinality(C)) |-> CHOOSE x \in C : Rank(x, C) = j - 1]
Answer == Top(Cands, k)

(* Visiting goes from good to bad.                                           *)
Descending == \A i, j \in 1..Len(seen) : i < j => EffOf(seen[i]) >= EffOf(seen[j])
(* C05: the leaves visited are the ones that must be, whatever the order.    *)
VisitsRight ==
  done => \A j \in 1..Len(LeafSeq) :
            /\ Sure(Leaf, Eff, B, 0, j) => LeafSeq[j] \in SetOfSeq(seen)
            /\ Never(Leaf, Eff, B, 0, j) => LeafSeq[j] \notin SetOfSeq(seen)
(* Tolerances only make the declarations weaker.                             *)
Weaker ==
  done => \A j \in 1..Len(LeafSeq) :
            /\ Sure(Leaf, Eff, B, 1, j) => Sure(Leaf, Eff, B, 0, j)
            /\ Never(Leaf, Eff, B, 1, j) => Never(Leaf, Eff, B, 0, j)
            /\ ~(Sure(Leaf, Eff, B, 1, j) /\ Never(Leaf, Eff, B, 1, j))
AnswersRight ==
  done => LET S == SureItems(Leaf, Eff, B, 1)  M == MaybeItems(Leaf, Eff, B, 1)
          IN /\ CountOK(Answer, S, M, k) /\ FromOK(Answer, M)
             /\ NearestOK(Answer, S, D, 0, k) /\ OrderOK(Answer, D, 0) /\ DistinctOK(Answer)
(* C03.                                                                      *)
Exact == (done /\ B >= 2 * Cardinality(Items)) => Answer = Top(Items, k)
(* C04: the default is enough for k answers.                                 *)
DefaultFills == (done /\ b = -1) => Len(Answer) = Least(k, Cardinality(Items))
(* C05: an item whose leaf is on the right side everywhere is found by the   *)
(* smallest default search.                                                  *)
SelfFound ==
  (done /\ b = -1 /\ k >= 1) =>
    \A x \in Items :
      (\A j \in 1..Len(LeafSeq) : x \in Leaf[j].it <=> Eff[j] > 0) => x \in Cands
(* C05: going on never makes the answer worse.                               *)
Better ==
  [][\A j \in 1..Len(Answer) : j <= Len(Answer') /\ D[Answer'[j]] <= D[Answer[j]]]_vars
Ends == <>done

M3 == {-1, 0, 1}
M5 == {-2, -1, 0, 1, 2}
M2 == {-1, 1}
=============================================================================
