------------------------------ MODULE FileMem -------------------------------
(* The loaders: a file is opened, and stays what it was then until closed,   *)
(* whatever replaces it; several allocations of a file may be open.          *)
(*                                                                           *)
(* Way: "right", or: "cached" (what is open already is handed out again,     *)
(* though the file was replaced), "all" (closing one closes those of the     *)
(* file), "latest" (closing releases the one opened last), "first" (the      *)
(* loader reports the one opened first), "keeps" (an open that fails is kept *)
(* as open), "twice" (closing again releases another one).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Paths, Contents, MaxOpens, MaxOps, Way, Emit

VARIABLES disk,     \* path -> content; 0: none, -1: nothing that can be loaded
          opens,    \* of each open call: [p, saw, has, done]
          list,     \* path -> the numbers of the calls, as the loader has them
          n, hist
fvars == <<disk, opens, list>>
vars == <<fvars, n, hist>>

Init == disk = [p \in Paths |-> 0] /\ opens = <<>> /\ list = [p \in Paths |-> <<>>] /\ n = 0 /\ hist = <<>>

Put(p, c) == disk' = [disk EXCEPT ![p] = c] /\ UNCHANGED <<opens, list>>

Usable(p) == disk[p] > 0
Last(s) == s[Len(s)]
Open(p) ==
  /\ Len(opens) < MaxOpens
  /\ LET k == Len(opens) + 1
         has == IF Way = "cached" /\ list[p] # <<>> THEN opens[Last(list[p])].has ELSE disk[p]
     IN /\ opens' = Append(opens, [p |-> p, saw |-> disk[p], has |-> has, done |-> ~Usable(p)])
        /\ list' = IF Usable(p) \/ Way = "keeps" THEN [list EXCEPT ![p] = Append(@, k)] ELSE list
  /\ UNCHANGED disk

Without(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Close(k) ==
  /\ k <= Len(opens) /\ opens[k].saw > 0
  /\ LET p == opens[k].p
         s == list[p]
         mine == {j \in 1..Len(s) : s[j] = k}
     IN /\ list' = [list EXCEPT ![p] =
              IF Way = "all" THEN <<>>
              ELSE IF Way = "twice" /\ mine = {} THEN (IF s = <<>> THEN s ELSE Without(s, 1))
              ELSE IF mine = {} THEN s
              ELSE Without(s, IF Way = "latest" THEN Len(s) ELSE CHOOSE j \in mine : TRUE)]
        /\ opens' = [j \in 1..Len(opens) |->
              IF j = k THEN [opens[j] EXCEPT !.done = TRUE]
              ELSE IF Way = "all" /\ opens[j].p = p THEN [opens[j] EXCEPT !.has = 0]
              ELSE opens[j]]
  /\ UNCHANGED disk

Op(name, p, x) == n < MaxOps /\ n' = n + 1 /\ hist' = IF Emit THEN Append(hist, <<name, p, x>>) ELSE hist
Next ==
  \/ \E p \in Paths, c \in Contents \cup {0, -1} : disk[p] # c /\ Op("file", p, c) /\ Put(p, c)
  \/ \E p \in Paths : Op("open", p, 0) /\ Open(p)
  \/ \E k \in 1..MaxOpens : Op("close", "", k) /\ Close(k)
Spec == Init /\ [][Next]_vars

View == <<fvars, n>>
EmitAll == (Emit /\ n' = MaxOps) => PrintT("@@H " \o ToJson(hist'))

(* What the loader says is open for the path, 0: nothing.                    *)
Says(p) == IF list[p] = <<>> THEN 0 ELSE IF Way = "first" THEN list[p][1] ELSE Last(list[p])
Held(p) == {k \in 1..Len(opens) : opens[k].p = p /\ ~opens[k].done}
Max(s) == CHOOSE x \in s : \A y \in s : y <= x

(* C24, C16 *)
AsOpened == \A k \in 1..Len(opens) : ~opens[k].done => opens[k].has = opens[k].saw
Reported == \A p \in Paths : Says(p) = IF Held(p) = {} THEN 0 ELSE Max(Held(p))
Refused == \A k \in 1..Len(opens) : opens[k].saw <= 0 => opens[k].done
=============================================================================
