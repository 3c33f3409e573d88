----------------------------- MODULE BuildTrace -----------------------------
(* Judges recorded builds by several workers: what each of them did between  *)
(* two lock calls, and the forest that came of it.                           *)
EXTENDS ForestTrace, LockDef

VARIABLES held,    \* the locks, as in BuildProto
          owner,   \* node -> the worker that wrote it
          room, n, left

bvars == <<held, owner, room, n, left>>

Stop(why) == PrintT(<<"@@R", l, why>>) /\ FALSE
B(name, ok) == J({"C09"}, name, ok)

AcqJ(e) == { B("a lock is granted that another one excludes", Admits(held, e.k)) }
RelJ(e) == { B("a lock is released by someone else", Holds(held, e.w, e.k)) }
UsesNodes(w) == Holds(held, w, "sh") \/ Holds(held, w, "ex")
SegJ(e) ==
  LET W == SeqSet(e.writes)
  IN { B("nodes are looked up without a lock", e.maps > 0 => UsesNodes(e.w) \/ Holds(held, e.w, "nn")),
       B("nodes are written without the node lock", W # {} => UsesNodes(e.w)),
       B("a worker changes an item", \A x \in W : x >= n),
       B("two workers write a node", \A x \in W : x \in DOMAIN owner => owner[x] = e.w),
       B("a node is written outside of the memory", \A x \in W : x < room) }
MoveJ(e) ==
  { B("nodes are moved without the exclusive lock", e.w >= 0 => Holds(held, e.w, "ex")),
    B("the memory shrinks", e.nodes >= room) }
LeftJ(e) == { B("a worker leaves with a lock", ~HoldsAny(held, e.w)) }
BuiltJ(e) == { B("locks are held after the build", held = <<>>) }
(* The nodes that were written are those of the trees.                       *)
OwnedJ(e) == { B("nodes of the trees that no worker wrote, or were written in vain",
                  owner = <<>> \/ ( /\ DOMAIN owner \subseteq Body(e)
                                   /\ \A x \in Body(e) \ DOMAIN owner : NodeAt(e, x).d = 0 )) }

BFollow(e) ==
  CASE e.op = "begin" ->
         /\ held' = <<>> /\ owner' = <<>> /\ room' = e.nodes /\ n' = e.n /\ left' = {} /\ UNCHANGED case
    [] e.op = "acq" -> Judged(AcqJ(e)) /\ held' = Grant(held, e.w, e.k) /\ UNCHANGED <<owner, room, n, left, case>>
    [] e.op = "rel" -> Judged(RelJ(e)) /\ held' = Release(held, e.w, e.k) /\ UNCHANGED <<owner, room, n, left, case>>
    [] e.op = "seg" ->
         /\ Judged(SegJ(e))
         /\ owner' = [x \in DOMAIN owner \cup SeqSet(e.writes) |-> IF x \in DOMAIN owner THEN owner[x] ELSE e.w]
         /\ UNCHANGED <<held, room, n, left, case>>
    [] e.op = "move" -> Judged(MoveJ(e)) /\ room' = e.nodes /\ UNCHANGED <<held, owner, n, left, case>>
    [] e.op = "left" -> Judged(LeftJ(e)) /\ left' = left \cup {e.w} /\ UNCHANGED <<held, owner, room, n, case>>
    [] e.op = "stuck" -> Stop("the workers wait for each other")
    [] e.op = "fault" -> Stop("nodes are touched without the node lock, or after they were moved")
    [] e.op = "built" ->
         /\ Judged(BuiltJ(e))
         /\ owner' = IF e.loose THEN <<>> ELSE owner
         /\ UNCHANGED <<held, room, n, left, case>>
    [] e.op = "forest" -> Judged(ForestJ(e)) /\ Judged(SoundJ(e)) /\ Judged(OwnedJ(e)) /\ UNCHANGED <<bvars, case>>
    [] OTHER -> Follow(e) /\ UNCHANGED bvars

BTraceInit == TraceInit /\ held = <<>> /\ owner = <<>> /\ room = 0 /\ n = 0 /\ left = {}
BTraceNext == l <= Len(Trace) /\ l' = l + 1 /\ BFollow(Trace[l])
BTraceSpec == BTraceInit /\ [][BTraceNext]_<<l, case, bvars>>
=============================================================================
