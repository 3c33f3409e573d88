------------------------------ MODULE BuildMem ------------------------------
(* The memory that an index is built in, as its allocator hands it out: a    *)
(* block of cells that is replaced by a larger one when more is asked for.   *)
(*                                                                           *)
(* Way: "right", or: "forget" (the new block is not filled with the old      *)
(* one), "short" (all but the last cell is), "dirty" (what was freed is used *)
(* again as it is), "same" (when little more is asked for, nothing happens). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes, Values, MaxOps, Way, Emit

VARIABLES block,    \* the cells there are
          asked,    \* how many were asked for last
          freed,    \* the block that was freed last
          holds,    \* cell -> what it has to hold; -1: anything
          n, hist
mvars == <<block, asked, freed, holds>>
vars == <<mvars, n, hist>>

Init == block = <<>> /\ asked = 0 /\ freed = <<>> /\ holds = <<>> /\ n = 0 /\ hist = <<>>

At(s, k) == IF k <= Len(s) THEN s[k] ELSE 0
Fill(s, size) == [k \in 1..size |-> At(s, k)]
Short(s) == IF Len(s) = 0 THEN s ELSE SubSeq(s, 1, Len(s) - 1)

(* What was written, stays; what never was, is zero. When less is asked for, *)
(* the rest is given up.                                                     *)
Asks(s) == /\ asked' = s
           /\ holds' = [k \in 1..(IF s < Len(holds) THEN Len(holds) ELSE s) |->
                          IF k > Len(holds) THEN 0 ELSE IF k > s THEN -1 ELSE holds[k]]
Alloc(s) ==
  /\ Asks(s)
  /\ block' = IF s < Len(block) \/ (Way = "same" /\ Len(block) > 0 /\ s <= Len(block) + 1) THEN block
              ELSE CASE Way = "forget" -> Fill(<<>>, s)
                     [] Way = "short" -> Fill(Short(block), s)
                     [] Way = "dirty" /\ Len(block) = 0 -> Fill(freed, s)
                     [] OTHER -> Fill(block, s)
  /\ UNCHANGED freed
Put(k, v) ==
  /\ k <= asked
  /\ holds' = [holds EXCEPT ![k] = v]
  /\ block' = IF k <= Len(block) THEN [block EXCEPT ![k] = v] ELSE block
  /\ UNCHANGED <<asked, freed>>
Free == block' = <<>> /\ asked' = 0 /\ holds' = <<>> /\ freed' = block

Op(name, x, v) == n < MaxOps /\ n' = n + 1 /\ hist' = IF Emit THEN Append(hist, <<name, x, v>>) ELSE hist
Next ==
  \/ \E s \in Sizes : Op("alloc", s, 0) /\ Alloc(s)
  \/ \E k \in Sizes, v \in Values : Op("put", k, v) /\ Put(k, v)
  \/ Op("free", 0, 0) /\ Free
Spec == Init /\ [][Next]_vars

View == <<mvars, n>>
EmitAll == (Emit /\ n' = MaxOps) => PrintT("@@H " \o ToJson(hist'))

(* C24 *)
Enough == Len(block) >= asked
Kept == \A k \in 1..asked : k <= Len(block) /\ (holds[k] = -1 \/ block[k] = holds[k])
=============================================================================
