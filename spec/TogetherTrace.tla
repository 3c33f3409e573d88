--------------------------- MODULE TogetherTrace ----------------------------
(* Judges what indexes saw side by side by what each sees alone; and files   *)
(* that several indexes save at the same time.                               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l
J(name, ok) == [name |-> name, ok |-> ok]
Judged(js) == \A j \in {x \in js : ~x.ok} : PrintT(<<"@@R", l, j.name>>) /\ FALSE
Stop(why) == PrintT(<<"@@R", l, why>>) /\ FALSE

Kinds == <<"build", "items", "save", "search", "load", "close">>
At(e, n) == { J("an index sees something else than alone: " \o Kinds[((n - 1) % 6) + 1],
                \A i \in 1..Len(e.alone) : n <= Len(e.alone[i]) => n <= Len(e.with[i]) /\ e.with[i][n] = e.alone[i][n]) }
TogetherJ(e) ==
  UNION {At(e, n) : n \in 1..Len(e.alone[1])}
  \cup { J("a file is not what its index wrote last", \A i \in 1..Len(e.ends) : e.ends[i]),
         J("a file that was only loaded has changed", e.common) }
RacedJ(e) ==
  { J("a file that is saved is neither the old nor a new one", e.broken = 0 /\ e.whole),
    J("saving at the same time fails", e.errs = 0),
    J("a file is left over", e.stray = 0) }

Follow(e) ==
  CASE e.op = "died" -> Stop("using indexes side by side crashes or hangs")
    [] e.op = "failed" -> Stop("using indexes side by side fails: " \o e.how)
    [] e.op = "cfg" -> TRUE
    [] e.op = "together" -> Judged(TogetherJ(e))
    [] e.op = "raced" -> Judged(RacedJ(e))

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Follow(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
