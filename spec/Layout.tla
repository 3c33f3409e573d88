------------------------------- MODULE Layout -------------------------------
(* Where nodes are. Machine numbers are small here: ids have IdMax values,   *)
(* addresses many more, and a node's place may lie beyond IdMax bytes. Ids   *)
(* are added in any order; memory grows by a factor. Way: "right", or        *)
(* broken: "narrow" (the place is computed in id arithmetic), "bytes" (the   *)
(* memory's size is), "file" (the file's is), "count" (the number of nodes   *)
(* of a file is), "overfull" (one child too many is kept in a node), "union" *)
(* (the vector begins where the children begin), "grow" (growth by the       *)
(* factor alone).                                                            *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS IdMax, IdBytes, ElBytes, Dim, Way

VARIABLES cap, bytes, used, file, back
vars == <<cap, bytes, used, file, back>>

KidsAt == IdBytes
VecAt == IF Way = "union" THEN KidsAt ELSE 3 * IdBytes
S == VecAt + Dim * ElBytes
K == (S - KidsAt) \div IdBytes + (IF Way = "overfull" THEN 1 ELSE 0)

Ids == 0..(IdMax - 1)
Place(i) == IF Way = "narrow" THEN (i * S) % IdMax ELSE i * S
Bytes(n) == IF Way = "bytes" THEN (n * S) % IdMax ELSE n * S
Max(a, b) == IF a > b THEN a ELSE b
Top == IF used = {} THEN 0 ELSE 1 + CHOOSE x \in used : \A y \in used : y <= x

Init == cap = 0 /\ bytes = 0 /\ used = {} /\ file = -1 /\ back = -1
Add(i) ==
  LET need == i + 1
      grown == ((cap + 1) * 13) \div 10
      c == IF need <= cap THEN cap ELSE IF Way = "grow" THEN grown ELSE Max(need, grown)
  IN /\ cap' = c /\ bytes' = (IF c = cap THEN bytes ELSE Bytes(c))
     /\ used' = used \cup {i} /\ UNCHANGED <<file, back>>
Save == file' = (IF Way = "file" THEN (Top * S) % IdMax ELSE Top * S) /\ UNCHANGED <<cap, bytes, used, back>>
Load == /\ file >= 0
        /\ back' = (IF Way = "count" THEN (file % IdMax) \div S ELSE file \div S)
        /\ UNCHANGED <<cap, bytes, used, file>>
Next == (file = -1 /\ (Save \/ \E i \in Ids : Cardinality(used) < 3 /\ Add(i))) \/ (back = -1 /\ Load)
Spec == Init /\ [][Next]_vars

(* C17 *)
Apart == \A i, j \in used : i < j => Place(j) - Place(i) >= S
InPlace == \A i \in used : Place(i) = i * S
Room == \A i \in used : Place(i) + S <= bytes
VectorFits == \A i \in used : /\ Place(i) + VecAt + Dim * ElBytes <= Place(i) + S
                             /\ Place(i) + VecAt >= Place(i) + KidsAt + 2 * IdBytes
ChildrenFit == \A i \in used : Place(i) + KidsAt + K * IdBytes <= Place(i) + S
FileWhole == file >= 0 => file = Top * S
AllBack == back >= 0 => back = Top
=============================================================================
