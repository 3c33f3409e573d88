------------------------------- MODULE Annoy -------------------------------
(* goannoy as its user sees it: a number of indexes living in one process,  *)
(* the files they are saved to, and the loaders that keep files mapped.     *)
(* Each API call is one action, enabled in every state: a call that is out  *)
(* of order is an action too (it is refused and changes nothing).           *)
(*                                                                          *)
(* An index is "open" (items may be added), "built" or "loaded". Vectors    *)
(* are abstract tokens; trees are abstracted to their number, their inner   *)
(* structure is the subject of Forest, Search and BuildProto.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Index,      \* the indexes of the process
  Ids,        \* item ids
  Vecs,       \* vector tokens
  Paths,      \* file names
  TreeCounts, \* numbers of trees a build may ask for
  LoaderChoices, \* functions Index -> loader object: what they may share
  Mapped,     \* loaders that keep the file memory-mapped
  BadKinds    \* kinds of unusable files the environment may put at a path

VARIABLES
  phase,      \* Index -> {"open", "built", "loaded"}
  items,      \* Index -> function from the added ids to vector tokens
  trees,      \* Index -> number of trees (0 while open)
  src,        \* Index -> path of the file that is loaded, or NoPath
  disk,       \* Paths -> file content
  loader      \* Index -> the loader it uses (chosen once)

vars == <<phase, items, trees, src, disk>>

NoPath  == "-"
Empty   == [x \in {} |-> 0]          \* no items
Absent  == [kind |-> "absent", items |-> Empty, trees |-> 0]
Bad(k)  == [kind |-> k, items |-> Empty, trees |-> 0]
Good(its, t) == [kind |-> "index", items |-> its, trees |-> t]

Loaders == UNION {{f[i] : i \in Index} : f \in LoaderChoices}

(* The number of node places that items take: ids below it can be read. *)
Span(its) == IF DOMAIN its = {} THEN 0
             ELSE 1 + CHOOSE m \in DOMAIN its : \A x \in DOMAIN its : x <= m

Put1(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

TypeOK ==
  /\ phase \in [Index -> {"open", "built", "loaded"}]
  /\ trees \in [Index -> Nat]
  /\ \A i \in Index : DOMAIN items[i] \subseteq Ids
                      /\ \A x \in DOMAIN items[i] : items[i][x] \in Vecs
  /\ src \in [Index -> Paths \cup {NoPath}]
  /\ DOMAIN disk = Paths

Init ==
  /\ phase = [i \in Index |-> "open"]
  /\ items = [i \in Index |-> Empty]
  /\ trees = [i \in Index |-> 0]
  /\ src = [i \in Index |-> NoPath]
  /\ disk = [p \in Paths |-> Absent]
  /\ loader \in LoaderChoices

-----------------------------------------------------------------------------
(* Outcomes the API promises in the current state.                          *)

AddOut(i)   == IF phase[i] = "open" THEN "ok" ELSE "refused"
BuildOut(i) == IF phase[i] = "open" THEN "ok" ELSE "refused"
SaveOut(i, p) ==
  IF phase[i] = "open" \/ trees[i] = 0 \/ disk[p].kind = "dir" THEN "err" ELSE "ok"
LoadOut(p)  == IF disk[p].kind = "index" THEN "ok" ELSE "err"
GetOut(i, x) == IF x < Span(items[i]) THEN "ok" ELSE "refused"
(* What a search for all items yields. *)
Reach(i)    == IF trees[i] = 0 THEN {} ELSE DOMAIN items[i]

(* What the process holds: mappings of a path, and open files in a loader.  *)
Mappings(p) == Cardinality({i \in Index : src[i] = p /\ loader[i] \in Mapped})
IsOpen(l, p) == \E i \in DOMAIN src : src[i] = p /\ loader[i] = l

-----------------------------------------------------------------------------
AddOk(i, x, v) ==
  /\ items' = [items EXCEPT ![i] = Put1(items[i], x, v)]
  /\ UNCHANGED <<phase, trees, src, disk>>

BuildOk(i, q) ==
  /\ phase' = [phase EXCEPT ![i] = "built"]
  /\ trees' = [trees EXCEPT ![i] = q]
  /\ UNCHANGED <<items, src, disk>>

(* A save writes the file and then works on that file: it loads it. *)
SaveOk(i, p) ==
  /\ disk' = [disk EXCEPT ![p] = Good(items[i], trees[i])]
  /\ phase' = [phase EXCEPT ![i] = "loaded"]
  /\ src' = [src EXCEPT ![i] = p]
  /\ UNCHANGED <<items, trees>>

LoadOk(i, p) ==
  /\ phase' = [phase EXCEPT ![i] = "loaded"]
  /\ items' = [items EXCEPT ![i] = disk[p].items]
  /\ trees' = [trees EXCEPT ![i] = disk[p].trees]
  /\ src' = [src EXCEPT ![i] = p]
  /\ UNCHANGED disk

(* Closing; also what a failing load leaves behind. *)
Cleared(i) ==
  /\ phase' = [phase EXCEPT ![i] = "open"]
  /\ items' = [items EXCEPT ![i] = Empty]
  /\ trees' = [trees EXCEPT ![i] = 0]
  /\ src' = [src EXCEPT ![i] = NoPath]
  /\ UNCHANGED disk

Add(i, x, v) == IF AddOut(i) = "ok" THEN AddOk(i, x, v) ELSE UNCHANGED vars
AddBad(i, x) == UNCHANGED vars          \* vector of a wrong length
Build(i, q)  == IF BuildOut(i) = "ok" THEN BuildOk(i, q) ELSE UNCHANGED vars
Save(i, p)   == IF SaveOut(i, p) = "ok" THEN SaveOk(i, p) ELSE UNCHANGED vars
Load(i, p)   == IF LoadOut(p) = "ok" THEN LoadOk(i, p) ELSE Cleared(i)
Close(i)     == Cleared(i)
Get(i, x)    == UNCHANGED vars
QueryAll(i)  == UNCHANGED vars
QueryBad(i)  == UNCHANGED vars          \* query vector of a wrong length

(* The environment: somebody removes a file, or replaces it by another one  *)
(* (never writing into the file an index is mapped to).                     *)
EnvPut(p, k) ==
  /\ disk' = [disk EXCEPT ![p] = Bad(k)]
  /\ UNCHANGED <<phase, items, trees, src>>
EnvRemove(p) ==
  /\ disk[p].kind # "absent"
  /\ disk' = [disk EXCEPT ![p] = Absent]
  /\ UNCHANGED <<phase, items, trees, src>>

Next ==
  \/ \E i \in Index :
       \/ \E x \in Ids : \/ \E v \in Vecs : Add(i, x, v)
                         \/ AddBad(i, x)
                         \/ Get(i, x)
       \/ \E q \in TreeCounts : Build(i, q)
       \/ \E p \in Paths : Save(i, p) \/ Load(i, p)
       \/ Close(i) \/ QueryAll(i) \/ QueryBad(i)
  \/ \E p \in Paths : EnvRemove(p) \/ \E k \in BadKinds : EnvPut(p, k)

Spec == Init /\ [][Next /\ UNCHANGED loader]_<<vars, loader>>

-----------------------------------------------------------------------------
(* Properties of the design.                                                *)

(* C16: a mapping is held exactly while loaded. *)
HeldIffLoaded ==
  \A i \in Index : (src[i] # NoPath) <=> (phase[i] = "loaded")

(* C08: trees exist only after the phase for adding items. *)
OpenHasNoTrees == \A i \in Index : phase[i] = "open" => trees[i] = 0
LoadedHasTrees == \A i \in Index : phase[i] = "loaded" => trees[i] > 0
DiskHasTrees   == \A p \in Paths : disk[p].kind = "index" => disk[p].trees > 0

(* C01: once built, items only change by loading or closing. *)
ItemsFrozen ==
  [][\A i \in Index :
       (phase[i] # "open" /\ phase'[i] = "built") => items'[i] = items[i]]_vars

(* C21: an action changes at most one index, and files of others only by a   *)
(* save of its own.                                                          *)
View1(i) == <<phase[i], items[i], trees[i], src[i]>>
OneAtATime ==
  [][\A i, j \in Index : (i # j /\ View1(i)' # View1(i)) => View1(j)' = View1(j)]_vars

(* C06: right after a save the file holds just what the index holds.         *)
SavedIsLoaded ==
  [][\A i \in Index, p \in Paths :
       Save(i, p) /\ SaveOut(i, p) = "ok" =>
          /\ disk'[p] = Good(items'[i], trees'[i])
          /\ items'[i] = items[i] /\ trees'[i] = trees[i]]_vars

(* C16: nothing is held that no index has loaded: mappings and registry      *)
(* entries are bounded by the number of indexes, whatever the history.       *)
HeldBounded ==
  /\ \A p \in Paths : Mappings(p) <= Cardinality(Index)
  /\ \A l \in Loaders, p \in Paths :
       IsOpen(l, p) => \E i \in Index : phase[i] = "loaded" /\ loader[i] = l

(* C08: an index can always be brought back to the empty, open state.        *)
Reusable == \A i \in Index : AddOut(i) = "ok" \/ ENABLED Close(i)
=============================================================================
