------------------------------ MODULE RngTrace ------------------------------
(* Judges what was drawn from generators. The streams are learned: a stream  *)
(* is a tree, since calls that draw differently may use up the stream        *)
(* differently; each generator is at a node of it.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,
          at,      \* of each generator, its node
          seed,    \* of each generator, the seed it reported
          root,    \* seed -> root of its tree
          tree,    \* <<node, kind, argument>> -> [to, v]
          fresh    \* the next node
tvars == <<at, seed, root, tree, fresh>>

J(name, ok) == [name |-> name, ok |-> ok]
Judged(js) == \A j \in {x \in js : ~x.ok} : PrintT(<<"@@R", l, j.name>>) /\ FALSE
Stop(why) == PrintT(<<"@@R", l, why>>) /\ FALSE
Put(f, k, v) == (k :> v) @@ f

(* Numbers are given as four limbs of 16 bits.                               *)
Below(a, b) == \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]

(* Generator g starts anew from the seed that it reports.                    *)
StartJ(e) == { J("the seed that is reported is another one", e.seed = e.asked \/ e.asked = "0") }
Starts(g, s) ==
  /\ seed' = Put(seed, g, s)
  /\ IF s \in DOMAIN root THEN at' = Put(at, g, root[s]) /\ UNCHANGED <<root, fresh>>
     ELSE root' = Put(root, s, fresh) /\ at' = Put(at, g, fresh) /\ fresh' = fresh + 1
  /\ UNCHANGED tree

Draw(e) ==
  LET k == <<at[e.g], e.kind, e.n>>
      known == k \in DOMAIN tree
  IN /\ Judged({ J("the stream differs from what the same seed gave before", known => tree[k].v = e.v),
                 J("an index out of range is drawn", e.kind = "index" => Below(e.v, e.n)),
                 J("the reported seed changes by drawing", e.seed = seed[e.g]) })
     /\ IF known THEN at' = Put(at, e.g, tree[k].to) /\ UNCHANGED <<tree, fresh>>
        ELSE /\ tree' = Put(tree, k, [to |-> fresh, v |-> e.v])
             /\ at' = Put(at, e.g, fresh) /\ fresh' = fresh + 1
     /\ UNCHANGED <<seed, root>>

Follow(e) ==
  CASE e.op = "died" -> Stop("the generator crashes or hangs")
    [] e.op = "failed" -> Stop("the generator fails: " \o e.how)
    [] e.op = "cfg" -> at' = <<>> /\ seed' = <<>> /\ root' = <<>> /\ tree' = <<>> /\ fresh' = 0
    [] e.op = "start" -> Judged(StartJ(e)) /\ Starts(e.g, e.seed)
    [] e.op = "clone" ->
         /\ Judged({ J("a clone reports another seed", e.seed = seed[e.of]),
                     J("cloning changes the original's seed", e.orig = seed[e.of]) })
         /\ Starts(e.g, e.seed)
    [] e.op = "draw" -> Draw(e)
    [] e.op = "apart" ->
         Judged({ J("different seeds give the same stream", e.va # e.vb) }) /\ UNCHANGED tvars
    [] e.op = "reach" ->
         /\ Judged({ J("not all indexes are drawn", {e.seen[j] : j \in 1..Len(e.seen)} = 0..(e.n - 1)),
                     J("not both sides are drawn", {e.sides[j] : j \in 1..Len(e.sides)} = {0, 1}) })
         /\ UNCHANGED tvars

TraceInit == l = 1 /\ at = <<>> /\ seed = <<>> /\ root = <<>> /\ tree = <<>> /\ fresh = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Follow(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, tvars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
