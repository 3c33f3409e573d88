----------------------------- MODULE ForestDef -----------------------------
(* The forest of an index, as it lies in memory and in the file: nodes       *)
(* 0..n-1 are the places of the items, then come the nodes of the trees and  *)
(* at last the copies of the roots.                                          *)
(*                                                                           *)
(* A node of a tree is [d |-> its number of descendants, k |-> children].    *)
(* With d > K it is a split node with two children, else a bucket with d     *)
(* of them, K being the number of children that fit into a node.             *)
(*                                                                           *)
(* Roots are special: d is the number of item places, n, not the number of   *)
(* items below. With n <= K the root is a bucket whose surplus children are  *)
(* zero. With n > K and a single item it is a "dummy" split node that holds  *)
(* just the item (its second child is zero).                                 *)
EXTENDS Integers, Sequences, FiniteSets

IsSplit(nd, K) == nd.d > K

SeqSet(s) == {s[j] : j \in 1..Len(s)}

(* N(x): the node with number x; n: item places; nid: number of items.      *)
RECURSIVE Below(_, _, _, _)
(* The items below a node that is no root.                                   *)
Below(N(_), x, n, K) ==
  IF x < n THEN {x}
  ELSE LET nd == N(x)
       IN IF IsSplit(nd, K) THEN Below(N, nd.k[1], n, K) \cup Below(N, nd.k[2], n, K)
          ELSE SeqSet(nd.k)

RECURSIVE Refs(_, _, _, _)
(* How often items are referred to below a node.                             *)
Refs(N(_), x, n, K) ==
  IF x < n THEN 1
  ELSE LET nd == N(x)
       IN IF IsSplit(nd, K) THEN Refs(N, nd.k[1], n, K) + Refs(N, nd.k[2], n, K)
          ELSE Len(nd.k)

RECURSIVE Inner(_, _, _, _)
(* The nodes of the subtree, without items; as a sequence.                   *)
Inner(N(_), x, n, K) ==
  IF x < n THEN <<>>
  ELSE LET nd == N(x)
       IN IF IsSplit(nd, K) THEN Inner(N, nd.k[1], n, K) \o Inner(N, nd.k[2], n, K) \o <<x>>
          ELSE <<x>>

RECURSIVE SubOK(_, _, _, _, _)
(* The subtree is sound: it refers to existing nodes that come before it     *)
(* (so there are no cycles), no empty sides, buckets of 2..K items, and the  *)
(* right number of descendants.                                              *)
SubOK(N(_), x, n, K, lim) ==
  \/ x < n
  \/ /\ x < lim
     /\ LET nd == N(x)
        IN IF IsSplit(nd, K)
           THEN /\ Len(nd.k) = 2
                /\ nd.k[1] < x /\ nd.k[2] < x
                /\ SubOK(N, nd.k[1], n, K, x) /\ SubOK(N, nd.k[2], n, K, x)
                /\ nd.d = Refs(N, x, n, K)
           ELSE /\ nd.d >= 2 /\ Len(nd.k) = nd.d
                /\ \A j \in 1..nd.d : nd.k[j] < n

(* What kind of root an index with these items has.                          *)
RootKind(n, nid, K) ==
  IF n <= K THEN "bucket" ELSE IF nid = 1 THEN "dummy" ELSE "split"

RootOK(N(_), x, n, ids, K) ==
  LET nd == N(x)
      nid == Cardinality(ids)
      kind == RootKind(n, nid, K)
  IN /\ nd.d = n
     /\ CASE kind = "bucket" ->
               /\ Len(nd.k) = n
               /\ {nd.k[j] : j \in 1..nid} = ids
               /\ \A j \in (nid+1)..n : nd.k[j] = 0
          [] kind = "dummy" -> ids = {nd.k[1]} /\ (nd.k[2] = 0 \/ nd.k[2] = nd.k[1])
          [] kind = "split" ->
               /\ Len(nd.k) = 2 /\ nd.k[1] < x /\ nd.k[2] < x
               /\ SubOK(N, nd.k[1], n, K, x) /\ SubOK(N, nd.k[2], n, K, x)
               /\ Below(N, nd.k[1], n, K) \cup Below(N, nd.k[2], n, K) = ids
               /\ Refs(N, nd.k[1], n, K) + Refs(N, nd.k[2], n, K) = nid

RootInner(N(_), x, n, nid, K) ==
  IF RootKind(n, nid, K) = "split"
  THEN Inner(N, N(x).k[1], n, K) \o Inner(N, N(x).k[2], n, K) \o <<x>>
  ELSE <<x>>

(* Root recovery, as done when a file is loaded: the last node is the copy  *)
(* of a root; the roots and their copies are the nodes with as many          *)
(* descendants as it has.                                                    *)
Recovered(N(_), n, total) ==
  LET m == N(total - 1).d
      c == Cardinality({x \in n..(total - 1) : N(x).d = m}) \div 2
  IN (total - c)..(total - 1)
=============================================================================
