----------------------------- MODULE OrderTrace -----------------------------
(* Judges recorded sorts, and histories of priority queues.                  *)
EXTENDS OrderDef, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bag
J(name, ok) == [name |-> name, ok |-> ok]
Judged(js) == \A j \in {x \in js : ~x.ok} : PrintT(<<"@@R", l, j.name>>) /\ FALSE
Stop(why) == PrintT(<<"@@R", l, why>>) /\ FALSE

PsortJ(e) ==
  { J(e.fn \o " breaks its contract",
       IF ValidRange(Len(e.before), e.b, e.m, e.e) THEN PartlySorted(e.before, e.after, e.b, e.m, e.e)
       ELSE SameElements(e.before, e.after)) }
SortJ(e) == { J(e.fn \o " does not sort", Sorted(e.before, e.after)) }
(* Of large inputs, the facts that make up PartlySorted.                     *)
FactsJ(e) ==
  { J(e.fn \o " does not order the front part", e.ordered),
    J(e.fn \o " leaves a smaller element behind", e.smallest),
    J(e.fn \o " loses or doubles elements", e.perm),
    J(e.fn \o " touches what is outside of the range", e.outside) }
LessJ(e) == { J("Less", e.less = Less(e.a, e.b) /\ e.less2 = e.less) }
ContainsJ(e) ==
  { J("Contains", /\ e.first = (\E j \in 1..Len(e.s) : e.s[j][1] = e.x[1])
                  /\ e.second = (\E j \in 1..Len(e.s) : e.s[j][2] = e.x[2])) }
InterJ(e) ==
  { J("the intersection is not one", 
       /\ \A x \in {e.r[j] : j \in 1..Len(e.r)} :
             (\E j \in 1..Len(e.a) : e.a[j] = x) /\ (\E j \in 1..Len(e.c) : e.c[j] = x)
       /\ \A j \in 1..Len(e.a) : (\E k \in 1..Len(e.c) : e.c[k] = e.a[j]) => (\E k \in 1..Len(e.r) : e.r[k] = e.a[j])
       /\ \A j \in 1..(Len(e.r) - 1) : e.r[j] <= e.r[j + 1]) }

Q(e) == <<e.k, e.i>>
Follow(e) ==
  CASE e.op = "died" -> Stop("sorting crashes or hangs")
    [] e.op = "failed" -> Stop("sorting fails: " \o e.how)
    [] e.op = "cfg" -> bag' = <<>>
    [] e.op = "psort" -> Judged(PsortJ(e)) /\ UNCHANGED bag
    [] e.op = "sort" -> Judged(SortJ(e)) /\ UNCHANGED bag
    [] e.op = "facts" -> Judged(FactsJ(e)) /\ UNCHANGED bag
    [] e.op = "less" -> Judged(LessJ(e)) /\ UNCHANGED bag
    [] e.op = "contains" -> Judged(ContainsJ(e)) /\ UNCHANGED bag
    [] e.op = "inter" -> Judged(InterJ(e)) /\ UNCHANGED bag
    [] e.op = "push" -> bag' = Put(bag, Q(e))
    [] e.op = "pop" ->
         /\ Judged({ J("the removed element is not the smallest", Smallest(bag, Q(e))) })
         /\ bag' = Out(bag, Q(e))
    [] e.op = "see" ->      \* Top, Len and Empty
         /\ Judged({ J("the top is not the smallest",
                        IF InBag(bag) = {} THEN ~e.some ELSE e.some /\ Smallest(bag, Q(e))),
                     J("the length is wrong", e.n = Size(bag)),
                     J("emptiness is wrong", e.empty <=> Size(bag) = 0) })
         /\ UNCHANGED bag

    [] e.op = "kept" ->     \* the elements removed, when they were and in the end
         /\ Judged({ J("a removed element changes", e.before = e.after) })
         /\ UNCHANGED bag

TraceInit == l = 1 /\ bag = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Follow(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bag>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
