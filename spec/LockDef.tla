------------------------------ MODULE LockDef ------------------------------
(* The locks of a build policy: "nn" guards the node counter, "roots" the    *)
(* list of roots; the node lock is either held exclusively ("ex", to move    *)
(* the nodes) or shared ("sh", to use them).                                 *)
(*                                                                           *)
(* held is a sequence of <<worker, kind>>: a worker may be in it twice.      *)
EXTENDS Integers, Sequences

Kinds == {"nn", "ex", "sh", "roots"}

Conflict(a, b) ==
  CASE a = "sh" -> b = "ex"
    [] a = "ex" -> b \in {"ex", "sh"}
    [] OTHER -> a = b

Admits(held, k) == \A j \in 1..Len(held) : ~Conflict(k, held[j][2])

Holds(held, w, k) == \E j \in 1..Len(held) : held[j] = <<w, k>>
HoldsAny(held, w) == \E j \in 1..Len(held) : held[j][1] = w

Grant(held, w, k) == Append(held, <<w, k>>)
Release(held, w, k) ==
  LET at == CHOOSE j \in 1..Len(held) : held[j] = <<w, k>>
  IN SubSeq(held, 1, at - 1) \o SubSeq(held, at + 1, Len(held))

(* Nobody holds what another's hold excludes.                                *)
Exclusive(held) ==
  \A i, j \in 1..Len(held) : i # j => ~Conflict(held[i][2], held[j][2])
=============================================================================
