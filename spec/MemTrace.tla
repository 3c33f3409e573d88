------------------------------ MODULE MemTrace ------------------------------
(* Judges real allocators and loaders: BuildMem and FileMem, following the   *)
(* recorded calls.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, block, asked, freed, holds, disk, opens, list
mvars == <<block, asked, freed, holds>>
fvars == <<disk, opens, list>>
vars == <<l, mvars, fvars>>

AllPaths == {"a", "b", "c"}

B == INSTANCE BuildMem WITH Sizes <- {}, Values <- {}, MaxOps <- 0, Way <- "right", Emit <- FALSE, n <- 0, hist <- <<>>
F == INSTANCE FileMem WITH Paths <- AllPaths, Contents <- {}, MaxOpens <- 1000, MaxOps <- 0, Way <- "right", Emit <- FALSE,
                           n <- 0, hist <- <<>>

J(name, ok) == [name |-> name, ok |-> ok]
Judged(js) == \A j \in {x \in js : ~x.ok} : PrintT(<<"@@R", l, j.name>>) /\ FALSE
Stop(why) == PrintT(<<"@@R", l, why>>) /\ FALSE

Fresh ==
  /\ block' = <<>> /\ asked' = 0 /\ freed' = <<>> /\ holds' = <<>>
  /\ opens' = <<>>

(* Every cell of what was asked for, and nothing but what has to be there.   *)
MemJ(e) ==
  { J("there is less memory than asked for", Len(e.cells) = asked'),
    J("memory does not hold what was written there last",
       Len(e.cells) = asked' => \A k \in 1..asked' : holds'[k] \in {-1, e.cells[k]}) }

Held(p) == {k \in 1..Len(opens') : opens'[k].p = p /\ ~opens'[k].done}
FileJ(e) ==
  { J("an open file is not what it was when it was opened",
       \A k \in 1..Len(opens') : ~opens'[k].done => e.has[k] = opens'[k].saw),
    J("the loader does not report what was opened last",
       \A j \in 1..Len(e.says) :
          LET h == Held(e.paths[j]) IN e.says[j] = IF h = {} THEN 0 ELSE F!Max(h)),
    J("opening a file", e.op = "open" => (e.out = "ok") = (opens'[Len(opens')].saw > 0)),
    J("closing fails", e.op = "close" => e.out = "ok") }

Follow(e) ==
  CASE e.op = "died" -> Stop("an allocator crashes or hangs")
    [] e.op = "failed" -> Stop("an allocator fails: " \o e.how)
    [] e.op = "cfg" ->
         /\ Fresh /\ disk' = [p \in AllPaths |-> 0] /\ list' = [p \in AllPaths |-> <<>>]
    [] e.op = "alloc" -> B!Alloc(e.x) /\ Judged(MemJ(e)) /\ UNCHANGED fvars
    [] e.op = "put" -> B!Put(e.x, e.v) /\ Judged(MemJ(e)) /\ UNCHANGED fvars
    [] e.op = "free" -> B!Free /\ UNCHANGED fvars
    [] e.op = "file" -> F!Put(e.p, e.x) /\ Judged(FileJ(e)) /\ UNCHANGED mvars
    [] e.op = "open" -> F!Open(e.p) /\ Judged(FileJ(e)) /\ UNCHANGED mvars
    [] e.op = "close" -> F!Close(e.x) /\ Judged(FileJ(e)) /\ UNCHANGED mvars
    (* Callers at the same time: what each of them saw.                      *)
    [] e.op = "crowd" ->
         /\ Judged({ J("an open file is not what it was when it was opened", e.wrong = 0),
                     J("opening a file", e.errs = 0),
                     J("the loader does not report what is open", e.unknown = 0),
                     J("the loader reports what is closed", e.left = 0) })
         /\ UNCHANGED <<mvars, fvars>>

TraceInit == l = 1 /\ block = <<>> /\ asked = 0 /\ freed = <<>> /\ holds = <<>> /\ disk = <<>> /\ opens = <<>>
             /\ list = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Follow(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
