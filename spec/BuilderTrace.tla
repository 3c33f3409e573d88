---------------------------- MODULE BuilderTrace ----------------------------
(* Judges indexes made by real builders: Builder, following the recorded      *)
(* calls.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, want, has, fixed, made
bvars == <<want, has, fixed, made>>

AllBuilders == 1..4
AllFields == {"dim", "pol", "loader", "rnd", "sorter", "verbose", "hint"}

B == INSTANCE Builder WITH Builders <- AllBuilders, Fields <- AllFields, Values <- {}, Must <- {"dim"}, MaxOps <- 0,
                           MaxMade <- 1000, Way <- "right", Emit <- FALSE, n <- 0, hist <- <<>>

J(name, ok) == [name |-> name, ok |-> ok]
Judged(js) == \A j \in {x \in js : ~x.ok} : PrintT(<<"@@R", l, j.name>>) /\ FALSE
Stop(why) == PrintT(<<"@@R", l, why>>) /\ FALSE

(* Defaults: one worker, memory-mapped files, quiet.                         *)
Policy(v) == IF v = 2 THEN "multi" ELSE "single"
Loader(v) == IF v = 2 THEN "gc" ELSE "mmap"

(* e.trees: <<policy, generator>> of all indexes made without a builder that *)
(* grow the same trees.                                                      *)
ProbeJ(e) ==
  LET w == made[e.k].want IN
  { J("an index has another vector length than its builder was told", e.dim = e.dims[w["dim"]]),
    J("an index does not use the build policy or the generator that its builder was told",
       \E j \in 1..Len(e.trees) : e.trees[j][1] = Policy(w["pol"]) /\ e.trees[j][2] = w["rnd"]),
    J("an index does not use the loader that its builder was told", e.loader = Loader(w["loader"])),
    J("an index does not use the sorter that its builder was told",
       {e.sorters[j] : j \in 1..Len(e.sorters)} = IF w["sorter"] = 0 THEN {} ELSE {w["sorter"]}),
    J("an index is verbose without being told, or quiet when it was told", e.verbose = (w["verbose"] # 0)),
    J("an index does not hold what was added", e.items),
    J("an index does not answer", e.answers) }

Follow(e) ==
  CASE e.op = "died" -> Stop("making or using an index crashes or hangs")
    [] e.op = "failed" -> Stop("making or using an index fails: " \o e.how)
    [] e.op = "cfg" ->
         /\ want' = [b \in AllBuilders |-> B!Nothing] /\ has' = want' /\ fixed' = [b \in AllBuilders |-> {}] /\ made' = <<>>
    [] e.op = "set" -> B!Set(e.b, e.f, e.v)
    [] e.op = "make" -> B!Make(e.b)
    [] e.op = "probe" -> Judged(ProbeJ(e)) /\ UNCHANGED bvars

TraceInit == l = 1 /\ want = <<>> /\ has = <<>> /\ fixed = <<>> /\ made = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Follow(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bvars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
