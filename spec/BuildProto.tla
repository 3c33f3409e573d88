----------------------------- MODULE BuildProto -----------------------------
(* The workers of a build and the memory that they fill. Each worker makes   *)
(* trees; it uses the nodes under the shared node lock, takes the number of  *)
(* a new node under the counter lock, and when there is no room left moves   *)
(* all nodes to a larger memory under the exclusive node lock.               *)
(*                                                                           *)
(* Using a node, moving the nodes and counting are two steps each, which     *)
(* another worker can come between, were it not for the locks.               *)
(*                                                                           *)
(* Way: "right", or a protocol that looks alike and is wrong:                *)
(*   count    - the counter is not guarded                                   *)
(*   move     - the nodes are moved under the shared lock only               *)
(*   pointer  - the place of a node is found before the lock is taken        *)
(*   early    - the shared lock is released before the node is written       *)
(*   order    - the shared lock is taken before the counter lock             *)
(*   roots    - the list of roots is not guarded                             *)
(*   grow     - the room is checked before the counter lock is taken         *)
EXTENDS LockDef, FiniteSets, TLC, Json

(* Items: so many there are, and the memory is full with them.              *)
CONSTANTS Workers, Trees, Shape, Items, Way, Emit

VARIABLES pc, step, held, waiting,  \* waiting: those that want the exclusive lock
          mem,      \* memories, old and new: node -> writer, 0 none
          cur,      \* the one in use
          count, seen, item, ptr, snap, roots, rsnap, mine, writes,
          hist
real == <<pc, step, held, waiting, mem, cur, count, seen, item, ptr, snap, roots, rsnap, mine, writes>>
vars == <<real, hist>>

(* What it takes to make a tree: a bucket, or a split with two buckets.      *)
Tree == CASE Shape = "bucket" -> <<"read", "node">>
          [] Shape = "split" -> <<"read", "read", "node", "node", "node">>
Prog == IF Trees = 1 THEN Tree ELSE IF Trees = 2 THEN Tree \o Tree ELSE Tree \o Tree \o Tree
NodesPer == (IF Shape = "bucket" THEN 1 ELSE 3) * Trees
Total == Cardinality(Workers) * NodesPer
Room(m) == Len(m)
Larger(r) == IF ((r + 1) * 3) \div 2 > count + 1 THEN ((r + 1) * 3) \div 2 ELSE count + 1

Init ==
  /\ pc = [w \in Workers |-> "begin"] /\ step = [w \in Workers |-> 1]
  /\ held = <<>> /\ waiting = {}
  /\ mem = << [x \in 1..Items |-> 0] >> /\ cur = 1
  /\ count = Items /\ seen = [w \in Workers |-> 0] /\ item = [w \in Workers |-> 0]
  /\ ptr = [w \in Workers |-> 0] /\ snap = [w \in Workers |-> <<>>]
  /\ roots = {} /\ rsnap = [w \in Workers |-> {}]
  /\ mine = [w \in Workers |-> <<>>] /\ writes = {}
  /\ hist = <<>>

Next1(w) == IF step[w] > Len(Prog) THEN (IF Way = "roots" THEN "rooting" ELSE "roots?")
            ELSE IF Prog[step[w]] = "read" THEN "read?"
            ELSE IF Way = "order" THEN "share?"
            ELSE IF Way = "grow" THEN "look" ELSE "alloc?"
To(w, p) == pc' = [pc EXCEPT ![w] = p]
Note(w) == hist' = IF Emit THEN Append(hist, w) ELSE hist
Quiet == hist' = hist

(* Taking a lock, as the policy grants it; and giving it back.               *)
Take(w, at, k, p) ==
  /\ pc[w] = at
  /\ Admits(held, k)
  /\ k = "sh" => waiting \ {w} = {}      \* who waits to move the nodes goes first
  /\ held' = Grant(held, w, k)
  /\ waiting' = waiting \ {w}
  /\ To(w, p) /\ Note(w)
Give(w, at, k, p) ==
  /\ pc[w] = at
  /\ held' = Release(held, w, k)
  /\ To(w, p) /\ Note(w) /\ UNCHANGED waiting

Begin(w) ==
  /\ pc[w] = "begin" /\ To(w, Next1(w)) /\ Note(w)
  /\ UNCHANGED <<step, held, waiting, mem, cur, count, seen, item, ptr, snap, roots, rsnap, mine, writes>>
mv == <<mem, cur, count, seen, item, ptr, snap, roots, rsnap, mine, writes>>

(* Reading the items.                                                        *)
ReadTake(w) == Take(w, "read?", "sh", "reading") /\ UNCHANGED <<mv, step>>
ReadGive(w) ==
  /\ step' = [step EXCEPT ![w] = @ + 1]
  /\ pc[w] = "reading" /\ held' = Release(held, w, "sh") /\ Note(w) /\ UNCHANGED waiting
  /\ pc' = [pc EXCEPT ![w] = IF step[w] + 1 > Len(Prog) THEN "roots?"
                             ELSE IF Prog[step[w] + 1] = "read" THEN "read?"
                             ELSE IF Way = "order" THEN "share?" ELSE IF Way = "grow" THEN "look" ELSE "alloc?"]
  /\ UNCHANGED mv

(* A new node: its number.                                                   *)
ShareTake(w) == Take(w, "share?", "sh", "alloc?") /\ UNCHANGED <<mv, step>>
Look(w) ==
  /\ pc[w] = "look" /\ To(w, IF count + 1 > Room(mem[cur]) THEN "grow?" ELSE "alloc?")
  /\ Quiet /\ UNCHANGED <<held, waiting, mv, step>>
AllocTake(w) ==
  IF Way = "count"
  THEN pc[w] = "alloc?" /\ To(w, "alloc") /\ Note(w) /\ UNCHANGED <<held, waiting, mv, step>>
  ELSE Take(w, "alloc?", "nn", "alloc") /\ UNCHANGED <<mv, step>>
Alloc(w) ==
  /\ pc[w] = "alloc"
  /\ To(w, IF Way # "grow" /\ count + 1 > Room(mem[cur]) THEN "grow?" ELSE "number")
  /\ Quiet /\ UNCHANGED <<held, waiting, mv, step>>
(* Who cannot have the exclusive lock waits for it.                          *)
GrowWait(w) ==
  /\ pc[w] = "grow?" /\ w \notin waiting /\ Way # "move"
  /\ ~Admits(held, "ex")
  /\ waiting' = waiting \cup {w}
  /\ Quiet /\ UNCHANGED <<pc, held, mv, step>>
GrowTake(w) == Take(w, "grow?", IF Way = "move" THEN "sh" ELSE "ex", "copy") /\ UNCHANGED <<mv, step>>
Copy(w) ==
  /\ pc[w] = "copy" /\ To(w, "switch") /\ Quiet
  /\ snap' = [snap EXCEPT ![w] = [x \in 1..Larger(Room(mem[cur])) |->
                                     IF x <= Room(mem[cur]) THEN mem[cur][x] ELSE 0]]
  /\ UNCHANGED <<held, waiting, mem, cur, count, seen, item, ptr, roots, rsnap, mine, writes, step>>
Switch(w) ==
  /\ pc[w] = "switch" /\ To(w, "grown") /\ Quiet
  /\ mem' = Append(mem, snap[w]) /\ cur' = Len(mem) + 1
  /\ snap' = [snap EXCEPT ![w] = <<>>]
  /\ UNCHANGED <<held, waiting, count, seen, item, ptr, roots, rsnap, mine, writes, step>>
GrowGive(w) == Give(w, "grown", IF Way = "move" THEN "sh" ELSE "ex", IF Way = "grow" THEN "alloc?" ELSE "number")
               /\ UNCHANGED <<mv, step>>
Number(w) ==
  /\ pc[w] = "number" /\ To(w, "numbered") /\ Quiet
  /\ seen' = [seen EXCEPT ![w] = count]
  /\ UNCHANGED <<held, waiting, mem, cur, count, item, ptr, snap, roots, rsnap, mine, writes, step>>
Numbered(w) ==
  /\ pc[w] = "numbered" /\ To(w, "taken") /\ Quiet
  /\ item' = [item EXCEPT ![w] = seen[w] + 1] /\ count' = seen[w] + 1
  /\ UNCHANGED <<held, waiting, mem, cur, seen, ptr, snap, roots, rsnap, mine, writes, step>>
AfterTaken == IF Way = "order" THEN "fetch" ELSE IF Way = "pointer" THEN "fetch" ELSE "write?"
AllocGive(w) ==
  IF Way = "count"
  THEN pc[w] = "taken" /\ To(w, AfterTaken) /\ Note(w) /\ UNCHANGED <<held, waiting, mv, step>>
  ELSE Give(w, "taken", "nn", AfterTaken) /\ UNCHANGED <<mv, step>>

(* Its place, and its content.                                               *)
WriteTake(w) ==
  Take(w, "write?", "sh", IF Way = "pointer" THEN "store" ELSE "fetch") /\ UNCHANGED <<mv, step>>
Fetch(w) ==
  /\ pc[w] = "fetch" /\ To(w, IF Way = "pointer" THEN "write?" ELSE IF Way = "early" THEN "written" ELSE "store") /\ Quiet
  /\ ptr' = [ptr EXCEPT ![w] = cur]
  /\ UNCHANGED <<held, waiting, mem, cur, count, seen, item, snap, roots, rsnap, mine, writes, step>>
Store(w) ==
  /\ pc[w] = "store" /\ Quiet
  /\ item[w] <= Room(mem[ptr[w]])
  /\ mem' = [mem EXCEPT ![ptr[w]] = [@ EXCEPT ![item[w]] = w]]
  /\ writes' = writes \cup {<<item[w], w, Len(mine[w])>>}
  /\ mine' = [mine EXCEPT ![w] = Append(@, item[w])]
  /\ IF Way = "early"
     THEN /\ step' = [step EXCEPT ![w] = @ + 1]
          /\ pc' = [pc EXCEPT ![w] = IF step[w] + 1 > Len(Prog) THEN "roots?"
                                     ELSE IF Prog[step[w] + 1] = "read" THEN "read?" ELSE "alloc?"]
     ELSE To(w, "written") /\ UNCHANGED step
  /\ UNCHANGED <<held, waiting, cur, count, seen, item, ptr, snap, roots, rsnap>>
WriteGive(w) ==
  /\ pc[w] = "written" /\ held' = Release(held, w, "sh") /\ Note(w) /\ UNCHANGED <<waiting, mv>>
  /\ IF Way = "early" THEN To(w, "store") /\ UNCHANGED step
     ELSE /\ step' = [step EXCEPT ![w] = @ + 1]
          /\ pc' = [pc EXCEPT ![w] = IF step[w] + 1 > Len(Prog) THEN (IF Way = "roots" THEN "rooting" ELSE "roots?")
                                     ELSE IF Prog[step[w] + 1] = "read" THEN "read?"
                                     ELSE IF Way = "order" THEN "share?" ELSE IF Way = "grow" THEN "look" ELSE "alloc?"]

(* The roots.                                                                *)
RootsTake(w) == Take(w, "roots?", "roots", "rooting") /\ UNCHANGED <<mv, step>>
Rooting(w) ==
  /\ pc[w] = "rooting" /\ To(w, "rooted") /\ Quiet
  /\ rsnap' = [rsnap EXCEPT ![w] = roots]
  /\ UNCHANGED <<held, waiting, mem, cur, count, seen, item, ptr, snap, roots, mine, writes, step>>
Rooted(w) ==
  /\ pc[w] = "rooted" /\ To(w, "leaving") /\ Quiet
  /\ roots' = rsnap[w] \cup {<<w, t>> : t \in 1..Trees}
  /\ UNCHANGED <<held, waiting, mem, cur, count, seen, item, ptr, snap, rsnap, mine, writes, step>>
RootsGive(w) ==
  IF Way = "roots"
  THEN pc[w] = "leaving" /\ To(w, "done") /\ Quiet /\ UNCHANGED <<held, waiting, mv, step>>
  ELSE Give(w, "leaving", "roots", "done") /\ UNCHANGED <<mv, step>>

Step(w) ==
  \/ Begin(w)
  \/ ReadTake(w) \/ ReadGive(w) \/ ShareTake(w) \/ Look(w) \/ AllocTake(w) \/ Alloc(w)
  \/ GrowWait(w) \/ GrowTake(w) \/ Copy(w) \/ Switch(w) \/ GrowGive(w)
  \/ Number(w) \/ Numbered(w) \/ AllocGive(w)
  \/ WriteTake(w) \/ Fetch(w) \/ Store(w) \/ WriteGive(w)
  \/ RootsTake(w) \/ Rooting(w) \/ Rooted(w) \/ RootsGive(w)

AllDone == \A w \in Workers : pc[w] = "done"
Next == (\E w \in Workers : Step(w)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : WF_vars(Step(w))

(* Each step that TLC explores gives a schedule for the real workers.        *)
View == real
EmitAll == (Emit /\ hist' # hist) => PrintT("@@H " \o ToJson(hist'))

(* C09 *)
LocksExclude == Way # "count" => Exclusive(held)
OneWriter == \A a, b \in writes : a[1] = b[1] => a = b
NotBehind == \A w \in Workers : pc[w] = "store" => ptr[w] = cur
InRoom == \A w \in Workers : pc[w] = "store" => item[w] <= Room(mem[ptr[w]])
Kept == AllDone =>
  /\ count = Items + Total
  /\ \A a \in writes : mem[cur][a[1]] = a[2]
  /\ {a[1] : a \in writes} = (Items + 1)..(Items + Total)
  /\ roots = {<<w, t>> : w \in Workers, t \in 1..Trees}
Released == AllDone => held = <<>>
Finishes == <>AllDone
=============================================================================
