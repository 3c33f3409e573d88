---------------------------- MODULE SaveFSTrace ----------------------------
(* Judges the system calls of real saves: after each of them (a kill may     *)
(* come there) the target must have its old content, or the new one with     *)
(* nothing more to come. Then what was found after real kills and failures.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Checks == {IOEnv.PROP}

VARIABLES l,
          names,   \* path -> inode
          size,    \* inode -> bytes of new content it has; -1: not touched
          fds,     \* descriptor -> [ino, w]
          next,    \* next inode number
          want     \* size of the new content

fsvars == <<names, size, fds, next, want>>
vars == <<l, fsvars>>

J(name, ok) == [name |-> name, ok |-> ok]
Judged(js) == \A j \in {x \in js : ~x.ok} : PrintT(<<"@@R", l, j.name>>) /\ FALSE

Begin(e) ==
  /\ names' = [p \in {e.names[j] : j \in 1..Len(e.names)} |->
                 CHOOSE j \in 1..Len(e.names) : e.names[j] = p]
  /\ size' = [i \in 1..Len(e.names) |-> -1]
  /\ fds' = <<>> /\ next' = Len(e.names) + 1 /\ want' = e.want

Open(e) ==
  LET new == e.p \notin DOMAIN names
      i == IF new THEN next ELSE names[e.p]
  IN /\ names' = IF new THEN names @@ (e.p :> i) ELSE names
     /\ next' = IF new THEN next + 1 ELSE next
     /\ size' = IF new THEN size @@ (i :> 0)
                ELSE IF e.trunc THEN [size EXCEPT ![i] = 0] ELSE size
     /\ fds' = (e.fd :> i) @@ fds
     /\ UNCHANGED want
Write(e) ==
  /\ size' = [size EXCEPT ![fds[e.fd]] = (IF @ = -1 THEN 0 ELSE @) + e.n]
  /\ UNCHANGED <<names, fds, next, want>>
Trunc(e) ==
  /\ size' = [size EXCEPT ![IF e.fd >= 0 THEN fds[e.fd] ELSE names[e.p]] = e.n]
  /\ UNCHANGED <<names, fds, next, want>>
Rename(e) ==
  /\ names' = [p \in (DOMAIN names \ {e.p}) \cup {e.to} |-> IF p = e.to THEN names[e.p] ELSE names[p]]
  /\ UNCHANGED <<size, fds, next, want>>
Link(e) ==
  /\ names' = names @@ (e.to :> names[e.p])
  /\ UNCHANGED <<size, fds, next, want>>
Unlink(e) ==
  /\ names' = [p \in DOMAIN names \ {e.p} |-> names[p]]
  /\ UNCHANGED <<size, fds, next, want>>

(* The target is gone, only when it never was; and has all of one content.   *)
WholeJ ==
  { J("the target vanishes", "target" \in DOMAIN names => "target" \in DOMAIN names'),
    J("the target has neither the old nor the new content",
       "target" \in DOMAIN names' => size'[names'["target"]] \in {-1, want}) }
(* Also while a write is going on.                                           *)
DuringJ(e) ==
  { J("the target is written in place",
       e.op \in {"write", "trunc"} =>
         LET i == IF e.fd >= 0 THEN fds[e.fd] ELSE names[e.p]
         IN "target" \notin DOMAIN names \/ names["target"] # i) }

KnownFd(e) == e.fd < 0 \/ e.fd \in DOMAIN fds

Sys(e) ==
  CASE e.op = "open" -> Open(e)
    [] e.op = "write" -> Write(e)
    [] e.op = "trunc" -> Trunc(e)
    [] e.op = "rename" -> Rename(e)
    [] e.op = "link" -> Link(e)
    [] e.op = "unlink" -> Unlink(e)

EndJ(e) ==
  { J("a save in peace fails", e.out = "ok"),
    J("the file is not complete", e.target = e.new),
    J("the index is not as before", e.search),
    J("another save fails", e.again),
    J("a stray file", e.stray = 0) }

(* After a kill: found is what the target has then.                          *)
KilledJ(e) ==
  { J("a killed save leaves neither the old nor the new content", e.target \in {e.old, e.new}),
    J("a file left by a killed save is in the way", e.later) }

(* After a failure.                                                          *)
FaultJ(e) ==
  { J("a failing save crashes", e.out \in {"ok", "err", "refused"}),
    J("a failed save is reported as done", e.out = "ok" => ~e.mustfail /\ e.target = e.new),
    J("a failed save changes the file", e.out # "ok" => e.target = e.old),
    J("a failed save is no error", e.out # "refused"),
    J("a failed save leaves a file", e.out # "ok" => e.stray = 0 \/ e.sys = "unlinkat"),
    J("the index is not as before", e.search),
    J("the index cannot be saved afterwards", e.again /\ e.againhash = e.new) }

Follow(e) ==
  CASE e.op = "died" -> PrintT(<<"@@R", l, "the save crashes or hangs">>) /\ FALSE
    [] e.op = "failed" -> PrintT(<<"@@R", l, "the save fails: " \o e.how>>) /\ FALSE
    [] e.op = "cfg" -> UNCHANGED fsvars
    [] e.op = "begin" -> Begin(e)
    [] e.op \in {"open", "write", "trunc", "rename", "link", "unlink"} ->
         Judged(DuringJ(e)) /\ Sys(e) /\ Judged(WholeJ)
    [] e.op = "end" -> Judged(EndJ(e)) /\ UNCHANGED fsvars
    [] e.op = "killed" -> Judged(KilledJ(e)) /\ UNCHANGED fsvars
    [] e.op = "fault" -> Judged(FaultJ(e)) /\ UNCHANGED fsvars

TraceInit == l = 1 /\ names = <<>> /\ size = <<>> /\ fds = <<>> /\ next = 1 /\ want = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Follow(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
