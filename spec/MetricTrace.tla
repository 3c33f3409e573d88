----------------------------- MODULE MetricTrace -----------------------------
(* Judges distances that an index reported. Vectors are those of small       *)
(* integers whose directions the items have; c is the cosine that the        *)
(* distance d stands for, 1 - d*d/2, in thousandths, rounded.                *)
EXTENDS MetricDef, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l
J(name, ok) == [name |-> name, ok |-> ok]
Judged(js) == \A j \in {x \in js : ~x.ok} : PrintT(<<"@@R", l, j.name>>) /\ FALSE
Stop(why) == PrintT(<<"@@R", l, why>>) /\ FALSE

PairJ(e) ==
  LET a == Cos(e.u, e.v)
  IN { J("a distance is not a number", e.number),
       J("a distance is below 0 or above 2", e.inside),
       J("a distance is not that of the angle", AtLeast(a, e.c - 1) /\ AtMost(a, e.c + 1)),
       J("parallel vectors are apart", Parallel(e.u, e.v) => e.near),
       J("vectors that are not parallel are at no distance", e.near => Parallel(e.u, e.v)),
       J("a zero vector is not at sqrt(2)", IsZero(e.u) \/ IsZero(e.v) => e.c = 0) }
(* less: the distance of u and v was smaller than that of w and x.           *)
OrderJ(e) ==
  LET a == Cos(e.u, e.v)
      b == Cos(e.w, e.x)
  IN { J("distances are in another order than angles",
         (CosLess(b, a) => e.less) /\ (CosLess(a, b) => e.more)) }
FactsJ(e) ==
  { J("a distance is not a number", e.number), J("a distance is below 0 or above 2", e.inside),
    J("a distance is not that of the angle", e.right), J("the distance is not symmetric", e.symmetric),
    J("the order of distances is another one", e.ordered), J("a detour is shorter", e.triangle) }

Follow(e) ==
  CASE e.op = "died" -> Stop("the distance crashes or hangs")
    [] e.op = "failed" -> Stop("the distance fails: " \o e.how)
    [] e.op = "cfg" -> TRUE
    [] e.op = "pair" -> Judged(PairJ(e))
    [] e.op = "order" -> Judged(OrderJ(e))
    [] e.op = "facts" -> Judged(FactsJ(e))

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Follow(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
