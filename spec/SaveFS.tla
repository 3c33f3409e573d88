------------------------------- MODULE SaveFS -------------------------------
(* How a save replaces its file: a file system of names and inodes, a saver  *)
(* that may be killed between and during any two of its steps, and any of    *)
(* whose steps may fail.                                                     *)
(*                                                                           *)
(* Way: "rename" is what the code does (another file is written, flushed and *)
(* renamed over the target). The others are designs that look alike and are  *)
(* wrong: TLC has to reject them.                                            *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Way, Chunks, MaxTries

VARIABLES names,   \* {"target", "tmp"} -> inode, 0: none
          data,    \* inode -> "old", or how many chunks of the new content, or
          pc,      \* where the saver is
          result,  \* "", "ok", "error"
          alive,
          had,     \* there was a target
          mine,    \* this save made the file that is to be the new one
          tries    \* saves so far, killed ones included

vars == <<names, data, pc, result, alive, had, mine, tries>>

Inodes == 1..3
Old == -1
Fresh == CHOOSE i \in Inodes : \A n \in DOMAIN names : names[n] # i
File == IF Way = "inplace" THEN "target" ELSE "tmp"

Init ==
  /\ had \in BOOLEAN
  /\ names = [target |-> IF had THEN 1 ELSE 0, tmp |-> 0]
  /\ data = [i \in Inodes |-> Old]
  /\ pc = "open" /\ result = "" /\ alive = TRUE /\ mine = FALSE /\ tries = 1

Go(p) == pc' = p /\ mine' = (mine \/ pc = "open") /\ UNCHANGED <<result, alive, had, tries>>
Finish(r) == pc' = "done" /\ result' = r /\ UNCHANGED <<alive, had, mine, tries>>

(* Creating truncates what is there: a killed save may have left its file.  *)
Open ==
  /\ alive /\ pc = "open"
  /\ LET i == IF names[File] # 0 THEN names[File] ELSE Fresh
     IN /\ names' = [names EXCEPT ![File] = i]
        /\ data' = [data EXCEPT ![i] = 0]
  /\ Go("write")
OpenFails == alive /\ pc = "open" /\ Finish("error") /\ UNCHANGED <<names, data>>

Write ==
  /\ alive /\ pc = "write" /\ data[names[File]] < Chunks
  /\ data' = [data EXCEPT ![names[File]] = @ + 1]
  /\ Go(IF data[names[File]] + 1 = Chunks THEN "flush" ELSE "write")
  /\ UNCHANGED names
WriteFails ==
  /\ alive /\ pc \in {"write", "flush"}
  /\ IF Way = "noerror" THEN Go("rename") ELSE Go("clean")
  /\ UNCHANGED <<names, data>>

Flush == alive /\ pc = "flush" /\ Go(IF Way = "inplace" THEN "load" ELSE "rename") /\ UNCHANGED <<names, data>>

Rename ==
  /\ alive /\ pc = "rename"
  /\ IF Way = "unlinkfirst" /\ names.target # 0
     THEN names' = [names EXCEPT !.target = 0] /\ Go("rename")
     ELSE names' = [target |-> names.tmp, tmp |-> 0] /\ Go("load")
  /\ UNCHANGED data
RenameFails == alive /\ pc = "rename" /\ Go("clean") /\ UNCHANGED <<names, data>>

Clean ==
  /\ alive /\ pc = "clean"
  /\ names' = IF Way = "noclean" THEN names ELSE [names EXCEPT ![File] = 0]
  /\ Finish("error") /\ UNCHANGED data

Load == alive /\ pc = "load" /\ Finish("ok") /\ UNCHANGED <<names, data>>

Kill ==
  /\ alive /\ pc # "done"
  /\ alive' = FALSE
  /\ UNCHANGED <<names, data, pc, result, had, mine, tries>>

(* The content that the target has after that is the old one of the next.   *)
Again ==
  /\ tries < MaxTries /\ (~alive \/ pc = "done")
  /\ tries' = tries + 1
  /\ had' = (names.target # 0)
  /\ data' = [i \in Inodes |-> IF i = names.target THEN Old ELSE data[i]]
  /\ pc' = "open" /\ result' = "" /\ alive' = TRUE /\ mine' = FALSE
  /\ UNCHANGED names

Next == Open \/ OpenFails \/ Write \/ WriteFails \/ Flush \/ Rename \/ RenameFails \/ Clean \/ Load \/ Kill \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Target == IF names.target = 0 THEN "none"
          ELSE IF data[names.target] = Old THEN "old"
          ELSE IF data[names.target] = Chunks THEN "new" ELSE "broken"

(* C07 *)
Whole == /\ Target # "broken"
         /\ Target = "none" => ~had
FailedKeeps == result = "error" => (Target = IF had THEN "old" ELSE "none")
DoneIsNew == result = "ok" => Target = "new"
NothingLeft == result \in {"error", "ok"} /\ mine => names.tmp = 0
Answers == (pc = "open" /\ alive) ~> (pc = "done" \/ ~alive)
=============================================================================
