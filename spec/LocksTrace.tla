----------------------------- MODULE LocksTrace -----------------------------
(* Judges what a real policy's lock calls did: "ret" is the return of the    *)
(* pending call of a caller; "quiet" says that nothing more happened for a   *)
(* while (a long one, when something should have).                           *)
EXTENDS LockDef, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, held, pending, multi
lvars == <<held, pending, multi>>

J(name, ok) == [name |-> name, ok |-> ok]
Judged(js) == \A j \in {x \in js : ~x.ok} : PrintT(<<"@@R", l, j.name>>) /\ FALSE
Stop(why) == PrintT(<<"@@R", l, why>>) /\ FALSE
Callers == DOMAIN pending

(* A free lock is granted, also when others wait for it; only new shared     *)
(* holders may have to wait for who wants the exclusive lock.                *)
Due(g) ==
  \/ ~multi
  \/ /\ Admits(held, pending[g])
     /\ pending[g] = "sh" => \A o \in Callers : pending[o] # "ex"
QuietJ(e) == { J("a free lock is not granted", \A g \in Callers : ~Due(g)) }
RetJ(e) == { J("a lock is granted that another one excludes", multi => Admits(held, pending[e.g])) }

Follow(e) ==
  CASE e.op = "died" -> Stop("the locks crash or hang")
    [] e.op = "failed" -> Stop("the locks fail: " \o e.how)
    [] e.op = "cfg" -> held' = <<>> /\ pending' = <<>> /\ multi' = e.multi
    [] e.op = "lock" -> pending' = (e.g :> e.k) @@ pending /\ UNCHANGED <<held, multi>>
    [] e.op = "ret" ->
         /\ Judged(RetJ(e))
         /\ held' = Grant(held, e.g, pending[e.g])
         /\ pending' = [g \in Callers \ {e.g} |-> pending[g]]
         /\ UNCHANGED multi
    [] e.op = "unlock" -> held' = Release(held, e.g, e.k) /\ UNCHANGED <<pending, multi>>
    [] e.op = "quiet" -> Judged(QuietJ(e)) /\ UNCHANGED lvars
    [] e.op = "storm" -> Judged({ J("callers exclude each other badly", e.bad = 0),
                                  J("callers starve", e.ended) }) /\ UNCHANGED lvars

TraceInit == l = 1 /\ held = <<>> /\ pending = <<>> /\ multi = TRUE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Follow(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, lvars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
