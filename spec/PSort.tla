------------------------------- MODULE PSort -------------------------------
(* The two partial sorts, for all small inputs: selecting the smallest one   *)
(* after another, and keeping the smallest in a heap with the largest of     *)
(* them on top. Way: "select", "heap", or broken: "short" (the last place of *)
(* the front part is not filled), "over" (looks one too far), "heapmin" (the  *)
(* front part is not made a heap first).                                     *)
EXTENDS OrderDef, TLC, Json

CONSTANTS Elements, MaxLen, Way, Emit

(* Values for Elements.                                                      *)
E2 == {<<1, 1>>, <<1, 2>>}
E3 == {<<1, 1>>, <<1, 2>>, <<2, 1>>}
E4 == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<3, 3>>}

VARIABLES before, s, b, m, e, i, pc
vars == <<before, s, b, m, e, i, pc>>

Swap(t, x, y) == [t EXCEPT ![x] = t[y], ![y] = t[x]]
Seqs == UNION {[1..n -> Elements] : n \in 0..MaxLen}

Init ==
  /\ before \in Seqs /\ s = before
  /\ b \in 0..Len(before) /\ m \in b..Len(before) /\ e \in m..Len(before)
  /\ i = 0 /\ pc = IF Way \in {"heap", "heapmin"} THEN "build" ELSE "select"
  /\ Emit => PrintT("@@H " \o ToJson(<<before, b, m, e>>))

(* Indices from 0, as in the code.                                           *)
At(t, x) == t[x + 1]

Select ==
  /\ pc = "select"
  /\ IF i < (IF Way = "short" THEN m - b - 1 ELSE m - b)
     THEN LET last == IF Way = "over" /\ e < Len(s) THEN e ELSE e - 1
              cand == {x \in (b + i)..last : \A y \in (b + i)..last : ~Less(At(s, y), At(s, x))}
              x == CHOOSE y \in cand : \A z \in cand : y <= z
          IN s' = Swap(s, b + i + 1, x + 1) /\ i' = i + 1 /\ pc' = pc
     ELSE pc' = "done" /\ UNCHANGED <<s, i>>
  /\ UNCHANGED <<before, b, m, e>>

RECURSIVE Sift(_, _, _)
(* Moves element x (from 0) of the front part down.                          *)
Sift(t, x, n) ==
  LET g(y) == t[b + y + 1]
      L == 2 * x + 1
      R == 2 * x + 2
      a == IF L < n /\ Less(g(x), g(L)) THEN L ELSE x
      c == IF R < n /\ Less(g(a), g(R)) THEN R ELSE a
  IN IF c = x THEN t ELSE Sift(Swap(t, b + x + 1, b + c + 1), c, n)
RECURSIVE Built(_, _, _)
Built(t, x, n) == IF x < 0 THEN t ELSE Built(Sift(t, x, n), x - 1, n)
RECURSIVE Sorting(_, _)
Sorting(t, n) == IF n <= 1 THEN t ELSE Sorting(Sift(Swap(t, b + 1, b + n), 0, n - 1), n - 1)

Build ==
  /\ pc = "build"
  /\ s' = IF Way = "heapmin" THEN s ELSE Built(s, (m - b) \div 2 - 1, m - b)
  /\ i' = m /\ pc' = IF m = b THEN "done" ELSE "scan"
  /\ UNCHANGED <<before, b, m, e>>
Scan ==
  /\ pc = "scan"
  /\ IF i < e
     THEN /\ s' = IF Less(At(s, i), At(s, b)) THEN Sift(Swap(s, b + 1, i + 1), 0, m - b) ELSE s
          /\ i' = i + 1 /\ pc' = pc
     ELSE s' = Sorting(s, m - b) /\ pc' = "done" /\ i' = i
  /\ UNCHANGED <<before, b, m, e>>

Next == Select \/ Build \/ Scan
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* C13 *)
Contract == pc = "done" => PartlySorted(before, s, b, m, e)
Within == \A x \in 1..Len(s) : (x <= b \/ x > e) => s[x] = before[x]
KeepsAll == SameElements(before, s)
Ends == <>(pc = "done")
=============================================================================
