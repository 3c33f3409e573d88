------------------------------ MODULE SaveRace ------------------------------
(* Several indexes save to the same file at the same time, each through      *)
(* another file, while that of a bystander has a name that looks like one.   *)
(* Way: "unique" (a name that nobody uses), or: "same" (always the same name *)
(* beside the target), "check" (looking for a free name and creating it are  *)
(* two steps).                                                               *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Savers, Chunks, Way

VARIABLES names,   \* name -> inode, 0: none. 0 is the target, -1 the bystander
          data,    \* inode -> <<whose, chunks>>; -1: the old one, -2: the bystander, -3: mixed
          pc, tmp, fd, next
vars == <<names, data, pc, tmp, fd, next>>

Target == 0
Bystander == -1
Names == {Target, Bystander} \cup 1..Cardinality(Savers)
Full(i) == data[i][2] = Chunks

Init ==
  /\ names = [n \in Names |-> IF n = Target THEN 1 ELSE IF n = Bystander THEN 2 ELSE 0]
  /\ data = <<<<-1, Chunks>>, <<-2, Chunks>>>>
  /\ pc = [s \in Savers |-> "name"] /\ tmp = [s \in Savers |-> 0] /\ fd = [s \in Savers |-> 0]
  /\ next = 3

Unused == {n \in Names : names[n] = 0}
Name(s) ==
  /\ pc[s] = "name"
  /\ tmp' = [tmp EXCEPT ![s] = IF Way = "same" THEN Bystander ELSE CHOOSE n \in Unused : \A k \in Unused : n <= k]
  /\ pc' = [pc EXCEPT ![s] = "create"]
  /\ UNCHANGED <<names, data, fd, next>>
Create(s) ==
  /\ pc[s] = "create"
  /\ LET n == tmp[s] IN
     IF Way = "unique" /\ names[n] # 0
     THEN pc' = [pc EXCEPT ![s] = "name"] /\ UNCHANGED <<names, data, fd, next>>   \* it exists: another one
     ELSE /\ pc' = [pc EXCEPT ![s] = "write"]
          /\ IF names[n] = 0
             THEN names' = [names EXCEPT ![n] = next] /\ data' = Append(data, <<s, 0>>) /\ fd' = [fd EXCEPT ![s] = next] /\ next' = next + 1
             ELSE data' = [data EXCEPT ![names[n]] = <<s, 0>>] /\ fd' = [fd EXCEPT ![s] = names[n]] /\ UNCHANGED <<names, next>>
  /\ UNCHANGED tmp
Write(s) ==
  /\ pc[s] = "write"
  /\ data' = [data EXCEPT ![fd[s]] = IF @[1] = s THEN <<s, @[2] + 1>> ELSE <<-3, @[2]>>]
  /\ pc' = [pc EXCEPT ![s] = IF data[fd[s]][2] + 1 >= Chunks THEN "rename" ELSE "write"]
  /\ UNCHANGED <<names, tmp, fd, next>>
Rename(s) ==
  /\ pc[s] = "rename"
  /\ names' = IF names[tmp[s]] = 0 THEN names ELSE [names EXCEPT ![Target] = names[tmp[s]], ![tmp[s]] = 0]
  /\ pc' = [pc EXCEPT ![s] = IF names[tmp[s]] = 0 THEN "failed" ELSE "done"]
  /\ UNCHANGED <<data, tmp, fd, next>>

Next == \E s \in Savers : Name(s) \/ Create(s) \/ Write(s) \/ Rename(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* C07 *)
Whole == LET d == data[names[Target]] IN d[1] \in Savers \cup {-1} /\ d[2] = Chunks
NoneFails == \A s \in Savers : pc[s] # "failed"
OneOfThem == (\A s \in Savers : pc[s] = "done") => data[names[Target]][1] \in Savers
NothingLeft == (\A s \in Savers : pc[s] = "done") => \A n \in Names \ {Target, Bystander} : names[n] = 0
(* C21 *)
BystanderKept == names[Bystander] = 2 /\ data[2] = <<-2, Chunks>>
Ends == <>(\A s \in Savers : pc[s] \in {"done", "failed"})
=============================================================================
