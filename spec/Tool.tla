-------------------------------- MODULE Tool --------------------------------
(* The precision tool: it builds an index of random items, saves it as       *)
(* test.ann, looks up the Ten nearest items of some of them with a large     *)
(* budget, counts how many of these the default search with each limit finds *)
(* as well, reports the averages, to results.txt or standard output, and     *)
(* removes test.ann unless it is to be kept. A file is 0 (none), 1 (was      *)
(* there before) or 2 (written by this run).                                 *)
(*                                                                           *)
(* Way: "right", or: "last" (only the last item counts), "cross" (what one   *)
(* limit finds counts for the next), "early" (results are written before     *)
(* they are there), "leaves" (the index is never removed), "both" (output    *)
(* goes to the file and nothing stops it from going to standard output).     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Items, Limits, Ten, Way, KeepChoices, FileChoices

VARIABLES keep, tofile, ann, results, stdout, pc, done, cur, sum, found, said
vars == <<keep, tofile, ann, results, stdout, pc, done, cur, sum, found, said>>

Zero == [m \in 1..Limits |-> 0]
Init ==
  /\ keep \in KeepChoices /\ tofile \in FileChoices
  /\ ann \in {0, 1} /\ results \in {0, 1} /\ stdout = 0
  /\ pc = "build" /\ done = 0 /\ cur = 1 /\ sum = Zero /\ found = <<>> /\ said = <<>>

Out == IF tofile THEN IF Way = "both" THEN 1 ELSE 0 ELSE 1
Build ==
  /\ pc = "build" /\ pc' = "save" /\ stdout' = stdout + Out
  /\ UNCHANGED <<keep, tofile, ann, results, done, cur, sum, found, said>>
Save ==
  /\ pc = "save" /\ ann' = 2 /\ pc' = "look"
  /\ results' = IF Way = "early" /\ tofile THEN 2 ELSE results
  /\ UNCHANGED <<keep, tofile, stdout, done, cur, sum, found, said>>
(* The larger the limit, the more of the nearest ones may be found.          *)
Look(h) ==
  /\ pc = "look" /\ done < Items
  /\ LET at == IF Way = "cross" /\ cur < Limits THEN cur + 1 ELSE cur IN
     sum' = IF Way = "last" THEN [sum EXCEPT ![at] = h] ELSE [sum EXCEPT ![at] = @ + h]
  /\ found' = Append(found, h)
  /\ IF cur = Limits THEN cur' = 1 /\ done' = done + 1 ELSE cur' = cur + 1 /\ UNCHANGED done
  /\ UNCHANGED <<keep, tofile, ann, results, stdout, pc, said>>
Report ==
  /\ pc = "look" /\ done = Items /\ pc' = "end"
  /\ said' = sum /\ stdout' = stdout + Out
  /\ UNCHANGED <<keep, tofile, ann, results, done, cur, sum, found>>
CleanUp ==
  /\ pc = "end" /\ pc' = "gone"
  /\ ann' = IF keep \/ Way = "leaves" THEN ann ELSE 0
  /\ results' = IF tofile /\ Way # "early" THEN 2 ELSE results
  /\ UNCHANGED <<keep, tofile, stdout, done, cur, sum, found, said>>

Next == Build \/ Save \/ (\E h \in 0..Ten : Look(h)) \/ Report \/ CleanUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* C26. Also used to judge real runs: fs is what was found, item by item,    *)
(* each with all limits.                                                     *)
RECURSIVE SumAt(_, _, _)
SumAt(fs, m, limits) == IF Len(fs) < m THEN 0
                        ELSE fs[m] + SumAt(SubSeq(fs, limits + 1, Len(fs)), m, limits)
Truth == pc = "gone" => \A m \in 1..Limits : said[m] = SumAt(found, m, Limits)
AnnOK(k, before, after) == after = IF k THEN 2 ELSE 0
ResultsOK(f, before, after) == after = IF f THEN 2 ELSE before
Files == pc = "gone" => AnnOK(keep, 0, ann) /\ (~tofile => results \in {0, 1}) /\ (tofile => results = 2)
Whole == results = 2 => said # <<>>
Quiet == tofile => stdout = 0
Ends == <>(pc = "gone")
=============================================================================
