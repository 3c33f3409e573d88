----------------------------- MODULE LayoutTrace -----------------------------
(* Judges where nodes are, what fits in them, and what large indexes hold.   *)
EXTENDS LayoutDef, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, size, ids       \* the node size (digits), and the ids added so far
J(name, ok) == [name |-> name, ok |-> ok]
Judged(js) == \A j \in {x \in js : ~x.ok} : PrintT(<<"@@R", l, j.name>>) /\ FALSE
Stop(why) == PrintT(<<"@@R", l, why>>) /\ FALSE
Set(s) == {s[i] : i \in 1..Len(s)}

NodeJ(e) ==
  { J("the vector does not fit in its node", e.vec + e.dim * e.el <= e.size),
    J("the children do not fit in their node", e.kids + e.most * e.ix <= e.size),
    J("a node cannot have two children", e.most >= 2),
    J("the children overlap the number of descendants", e.kids >= e.ix),
    J("the vector overlaps the children of a split", e.vec >= e.kids + 2 * e.ix) }
WritesJ(e) ==
  { J("writing a node touches its neighbours", e.inside),
    J("an item is not what was written", e.item),
    J("a split is not what was written", e.split),
    J("children are not what was written", e.children),
    J("copying a node does not copy all of it", e.copied),
    J("copying a node touches more than the node", e.copyinside) }

Follow(e) ==
  CASE e.op = "died" -> Stop("the layout makes it crash or hang")
    [] e.op = "failed" -> Stop("the layout makes it fail: " \o e.how)
    [] e.op = "cfg" -> size' = e.size /\ ids' = {}
    [] e.op = "node" -> Judged(NodeJ(e)) /\ UNCHANGED <<size, ids>>
    [] e.op = "place" ->
         /\ Judged({ J("a node is not at its number times the node size", e.at = Times(e.i, size)) })
         /\ UNCHANGED <<size, ids>>
    [] e.op = "writes" -> Judged(WritesJ(e)) /\ UNCHANGED <<size, ids>>
    [] e.op = "add" ->
         /\ Judged({ J("there is no room for the node", AtMostNum(Times(Plus(e.i, Num(1)), size), e.room)) })
         /\ ids' = ids \cup {e.id} /\ UNCHANGED size
    [] e.op = "items" ->     \* what all items hold, those that were added being right or wrong
         /\ Judged({ J("an item is not what was added", Set(e.right) = ids /\ Set(e.wrong) = {}) })
         /\ UNCHANGED <<size, ids>>
    [] e.op = "built" ->
         /\ Judged({ J("there is no room for all nodes", AtMostNum(Times(e.n, size), e.room)) })
         /\ UNCHANGED <<size, ids>>
    [] e.op = "found" ->
         /\ Judged({ J("searches do not find the items", Set(e.ids) = ids),
                     J("an item is not nearest to itself", e.self) })
         /\ UNCHANGED <<size, ids>>
    [] e.op = "file" ->
         /\ Judged({ J("the file does not have all nodes", AtMostNum(Times(e.n, size), e.bytes)),
                     J("the file has more than whole nodes", e.rest = 0) })
         /\ UNCHANGED <<size, ids>>

TraceInit == l = 1 /\ size = Num(0) /\ ids = {}
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Follow(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, size, ids>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
