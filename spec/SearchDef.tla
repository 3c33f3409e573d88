----------------------------- MODULE SearchDef -----------------------------
(* What a search has to answer, said without saying how it searches.         *)
(*                                                                           *)
(* leaf:  <<leaf>>, each [sz |-> candidates it gives, it |-> set of items];   *)
(*        an item counts once for every tree.                                *)
(* eff:   for each leaf the worst margin of the query on the way to it: how  *)
(*        far the query lies on the leaf's side of the hyperplanes.          *)
(* D:     item -> true distance to the query (small is near).                *)
(* tol:   margins closer than this are not told apart;                       *)
(* dtol:  nor are distances closer than that.                                *)
EXTENDS Integers, Sequences, FiniteSets

Least(a, b) == IF a < b THEN a ELSE b
Largest(a, b) == IF a > b THEN a ELSE b
SetOfSeq(s) == {s[j] : j \in 1..Len(s)}

(* The number of candidates in the leaves that satisfy P. *)
Amount(leaf, P(_)) ==
  LET F[j \in 0..Len(leaf)] == IF j = 0 THEN 0 ELSE F[j - 1] + (IF P(j) THEN leaf[j].sz ELSE 0)
  IN F[Len(leaf)]

(* The leaf is visited whatever the order of equal margins is ...            *)
Sure(leaf, eff, b, tol, x) ==
  Amount(leaf, LAMBDA y : y # x /\ eff[y] >= eff[x] - tol) < b
(* ... or is not.                                                            *)
Never(leaf, eff, b, tol, x) ==
  Amount(leaf, LAMBDA y : eff[y] > eff[x] + tol) >= b

SureItems(leaf, eff, b, tol) ==
  UNION {leaf[x].it : x \in {y \in 1..Len(leaf) : Sure(leaf, eff, b, tol, y)}}
MaybeItems(leaf, eff, b, tol) ==
  UNION {leaf[x].it : x \in {y \in 1..Len(leaf) : ~Never(leaf, eff, b, tol, y)}}

(* R: the items of the answer, nearest first.                                *)
(* The k nearest of the candidates C, with S \subseteq C \subseteq M:        *)
CountOK(R, S, M, k) ==
  /\ Len(R) >= Least(k, Cardinality(S))
  /\ Len(R) <= Least(k, Cardinality(M))
FromOK(R, M) == SetOfSeq(R) \subseteq M
(* No candidate that is left out is nearer than one that is not.             *)
NearestOK(R, S, D, dtol, k) ==
  \A s \in S \ SetOfSeq(R) :
     /\ Len(R) >= k
     /\ \A j \in 1..Len(R) : D[R[j]] <= D[s] + dtol
OrderOK(R, D, dtol) == \A j \in 1..(Len(R) - 1) : D[R[j]] <= D[R[j + 1]] + dtol
DistinctOK(R) == \A i, j \in 1..Len(R) : i # j => R[i] # R[j]

(* A budget of -1 stands for k times the number of trees.                    *)
Budget(b, k, q) == IF b = -1 THEN k * q ELSE b
=============================================================================
