------------------------------- MODULE Locks -------------------------------
(* The locks of a multi-worker build policy with their callers. A call that  *)
(* cannot be granted is pending until it can.                                *)
(*                                                                           *)
(* Fair = "writer": who waits for the exclusive lock goes before new shared  *)
(* holders; "none": whoever. Both are allowed. Broken designs: "shared" (an  *)
(* exclusive hold does not exclude shared ones), "one" (one lock for all),   *)
(* "lost" (the exclusive lock is not granted to who waited for it).          *)
EXTENDS LockDef, FiniteSets, TLC, Json

CONSTANTS Callers, Fair, MaxHeld, Emit

VARIABLES held, pending, hist
lvars == <<held, pending>>
vars == <<held, pending, hist>>

Nothing == "-"
CanGrant(h, pend, g, k) ==
  /\ IF Fair = "shared" THEN \A j \in 1..Len(h) : ~(k = h[j][2] /\ k # "sh") /\ ~(k = "ex" /\ h[j][2] = "sh")
     ELSE IF Fair = "one" THEN \A j \in 1..Len(h) : h[j][1] = g
     ELSE Admits(h, k)
  /\ Fair = "writer" /\ k = "sh" => \A o \in Callers \ {g} : pend[o] # "ex"

Init == held = <<>> /\ pending = [g \in Callers |-> Nothing] /\ hist = <<>>
Note(op, g, k) == hist' = IF Emit THEN Append(hist, <<op, g, k>>) ELSE hist

Mine(g) == {held[j][2] : j \in {i \in 1..Len(held) : held[i][1] = g}}
(* Nobody calls for what they hold.                                          *)
MayCall(g, k) ==
  /\ pending[g] = Nothing /\ k \notin Mine(g)
  /\ k \in {"ex", "sh"} => Mine(g) \cap {"ex", "sh"} = {}
  /\ Cardinality(Mine(g)) < MaxHeld

Call(g, k) ==
  /\ MayCall(g, k)
  /\ IF CanGrant(held, pending, g, k)
     THEN held' = Grant(held, g, k) /\ pending' = pending
     ELSE pending' = [pending EXCEPT ![g] = k] /\ held' = held
  /\ Note("lock", g, k)
Settle(g) ==
  /\ pending[g] # Nothing /\ CanGrant(held, pending, g, pending[g])
  /\ Fair = "lost" => pending[g] # "ex"
  /\ held' = Grant(held, g, pending[g]) /\ pending' = [pending EXCEPT ![g] = Nothing]
  /\ UNCHANGED hist
Unlock(g, k) ==
  /\ pending[g] = Nothing /\ k \in Mine(g)
  /\ held' = Release(held, g, k) /\ UNCHANGED pending
  /\ Note("unlock", g, k)

Settled == \A g \in Callers : pending[g] # Nothing => ~CanGrant(held, pending, g, pending[g])
Next == \E g \in Callers :
          \/ Settle(g)
          \/ Settled /\ \E k \in Kinds : Call(g, k) \/ Unlock(g, k)
Spec == Init /\ [][Next]_vars

(* States that differ in the order of the holds only are the same.           *)
View == <<{<<held[j][1], held[j][2]>> : j \in 1..Len(held)}, pending>>
EmitAll == (Emit /\ hist' # hist) => PrintT("@@H " \o ToJson(hist'))

(* C22 *)
Excluding == Exclusive(held)
Coexist == ~(\E g \in Callers : pending[g] = "sh" /\ (\A j \in 1..Len(held) : held[j][2] # "ex")
                               /\ (\A o \in Callers : pending[o] # "ex")
                               /\ ~CanGrant(held, pending, g, "sh"))
Independent == \A g \in Callers : pending[g] \in {"nn", "roots"} =>
                  (\E j \in 1..Len(held) : held[j][2] = pending[g]) \/ CanGrant(held, pending, g, pending[g])
FreeIsGranted == (Settled /\ held = <<>>) => \A g \in Callers : pending[g] = Nothing
=============================================================================
