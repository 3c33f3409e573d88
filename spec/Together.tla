------------------------------ MODULE Together ------------------------------
(* Indexes used side by side that have parts in common: the random generator *)
(* they are built with, and the loader, which has a list of what is open per *)
(* file and works in two steps, reading that list and writing it. Each index *)
(* goes through the same program twice: build, save (which opens the file),  *)
(* search, close. All use the same file.                                     *)
(*                                                                           *)
(* Way: "right", or: "draw" (builds draw from the common generator), "racy"  *)
(* (nothing keeps two callers apart between the two steps), "latest" (closing *)
(* releases what was opened last), "one" (the loader hands out what is open  *)
(* already, and closing takes it away from all), "reseed" (closing restarts  *)
(* the common generator from somewhere else).                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Index, Rounds, Way, Emit

VARIABLES at,      \* index -> its next step
          gen,     \* how far the common generator was drawn
          trees,   \* index -> where in the stream its trees come from, -1: none
          answer,  \* index -> what its last search saw
          open,    \* the loader's list: of indexes that opened
          busy,    \* index -> the list it has read and not written yet, or <<>>
          hist
tvars == <<at, gen, trees, answer, open, busy>>
vars == <<tvars, hist>>

Steps == <<"build", "read", "write", "search", "readc", "close">>
Step(i) == Steps[((at[i] - 1) % Len(Steps)) + 1]
More(i) == at[i] <= Rounds * Len(Steps)
Solo == 0
None == <<>>

Init ==
  /\ at = [i \in Index |-> 1] /\ gen = 0 /\ trees = [i \in Index |-> -1] /\ answer = [i \in Index |-> -1]
  /\ open = <<>> /\ busy = [i \in Index |-> None] /\ hist = <<>>

Go(i) == at' = [at EXCEPT ![i] = @ + 1] /\ hist' = IF Emit THEN Append(hist, i) ELSE hist
(* Reading and writing the list belong together.                             *)
Free == Way = "racy" \/ \A j \in Index : busy[j] = None

Build(i) ==
  /\ Step(i) = "build"
  /\ trees' = [trees EXCEPT ![i] = IF Way \in {"draw", "reseed"} THEN gen ELSE Solo]
  /\ gen' = IF Way = "draw" THEN gen + 1 ELSE gen
  /\ UNCHANGED <<answer, open, busy>>
Read(i) ==
  /\ Step(i) \in {"read", "readc"} /\ Free
  /\ busy' = [busy EXCEPT ![i] = <<open>>]
  /\ UNCHANGED <<gen, trees, answer, open>>
Write(i) ==
  /\ Step(i) = "write"
  /\ open' = IF Way = "one" /\ busy[i][1] # <<>> THEN busy[i][1] ELSE Append(busy[i][1], i)
  /\ busy' = [busy EXCEPT ![i] = None]
  /\ UNCHANGED <<gen, trees, answer>>
Search(i) ==
  /\ Step(i) = "search"
  /\ answer' = [answer EXCEPT ![i] =
       IF Way \in {"latest", "one"} /\ ~\E k \in 1..Len(open) : Way = "one" \/ open[k] = i THEN -2 ELSE trees[i]]
  /\ UNCHANGED <<gen, trees, open, busy>>
Without(s, i) ==
  LET k == IF Way = "latest" THEN Len(s) ELSE CHOOSE k \in 1..Len(s) : s[k] = i
  IN IF Way = "one" \/ ~\E j \in 1..Len(s) : s[j] = i THEN SubSeq(s, 1, Len(s) - 1)
     ELSE SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Close(i) ==
  /\ Step(i) = "close"
  /\ open' = Without(busy[i][1], i)
  /\ busy' = [busy EXCEPT ![i] = None]
  /\ trees' = [trees EXCEPT ![i] = -1]
  /\ gen' = IF Way = "reseed" THEN gen + 1 ELSE gen
  /\ answer' = [answer EXCEPT ![i] = -1]

Next == \E i \in Index : More(i) /\ Go(i) /\ (Build(i) \/ Read(i) \/ Write(i) \/ Search(i) \/ Close(i))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

View == tvars
(* Interleavings are printed when all are done.                              *)
EmitAll == (Emit /\ \A i \in Index : at'[i] > Rounds * Len(Steps)) => PrintT("@@H " \o ToJson(hist'))

(* C21: everybody sees what it would alone.                                  *)
Alone == \A i \in Index : trees[i] \in {-1, Solo} /\ answer[i] \in {-1, Solo}
IsOpen(i) == Step(i) \in {"search", "readc", "close"}
Registered ==
  (\A i \in Index : busy[i] = None) =>
    /\ \A i \in Index : Cardinality({k \in 1..Len(open) : open[k] = i}) = IF IsOpen(i) THEN 1 ELSE 0
    /\ Len(open) = Cardinality({i \in Index : IsOpen(i)})
Ends == <>(\A i \in Index : ~More(i))
=============================================================================
