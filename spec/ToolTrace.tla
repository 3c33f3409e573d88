------------------------------ MODULE ToolTrace ------------------------------
(* Judges runs of the precision tool: Tool's definitions, on what it printed *)
(* and left, and on what its index finds when it is asked again.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

T == INSTANCE Tool WITH Items <- 0, Limits <- 0, Ten <- 10, Way <- "right", KeepChoices <- {}, FileChoices <- {},
       keep <- FALSE, tofile <- FALSE, ann <- 0, results <- 0, stdout <- 0, pc <- "", done <- 0, cur <- 0, sum <- 0,
       found <- <<>>, said <- <<>>

J(name, ok) == [name |-> name, ok |-> ok]
Judged(js) == \A j \in {x \in js : ~x.ok} : PrintT(<<"@@R", l, j.name>>) /\ FALSE
Stop(why) == PrintT(<<"@@R", l, why>>) /\ FALSE

RECURSIVE Powers(_, _)
Powers(p, n) == IF p > n THEN {} ELSE {p} \cup Powers(10 * p, n)
Abs(x) == IF x < 0 THEN -x ELSE x

(* Precisions are given in millionths.                                       *)
Precise(e, m) == Abs(e.said[m] * 10 * e.prec - T!SumAt(e.found, m, Len(e.limits)) * 1000000) <= 10 * e.prec
RanJ(e) ==
  { J("the tool fails", e.rc = 0),
    J("the index that was saved is kept, or not kept, against what was asked", T!AnnOK(e.keep, e.ann0, e.ann)),
    J("results are written, or not written, against what was asked", T!ResultsOK(e.file, e.res0, e.res)),
    J("standard output is written to although the results go to a file", e.file /\ ~e.verbose => e.stdout = 0),
    J("the tool touches other files", e.other),
    J("not as many items are looked up as were asked for", Len(e.asked) = e.prec),
    J("an item that is looked up does not exist", \A j \in 1..Len(e.asked) : e.asked[j] \in 0..(e.n - 1)),
    J("limits are missing", Powers(1, e.n) \subseteq {e.limits[m] : m \in 1..Len(e.limits)}) }
(* Those that only make sense when the index was kept.                       *)
IndexJ(e) ==
  IF e.index = "none" THEN {}
  ELSE { J("the index that was kept cannot be loaded", e.index = "ok"),
         J("the index that was kept has other items or trees than asked for", e.items = e.n /\ e.trees = 2 * e.d),
         J("a precision is not that of the index",
            Len(e.said) = Len(e.limits) /\ \A m \in 1..Len(e.limits) : Precise(e, m)) }

Follow(e) ==
  CASE e.op = "died" -> Stop("the tool crashes or hangs")
    [] e.op = "failed" -> Stop("the tool fails: " \o e.how)
    [] e.op = "cfg" -> TRUE
    [] e.op = "ran" -> Judged(RanJ(e)) /\ (e.rc = 0 => Judged(IndexJ(e)))

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Follow(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
