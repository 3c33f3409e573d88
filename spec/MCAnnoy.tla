------------------------------ MODULE MCAnnoy ------------------------------
(* Annoy with a history of calls, which is hidden from the state by VIEW.   *)
(* Every transition TLC explores is printed as the sequence of calls that    *)
(* leads to it: one implementation test per transition of the state graph.  *)
EXTENDS Annoy, Json
CONSTANTS Emit, MaxItems
LC == [Index -> {1}]                 \* one loader for all
LC2 == [Index -> {1, 2}]             \* any sharing of a mapping and a plain one
VARIABLE hist
hvars == <<phase, items, trees, src, disk, loader, hist>>

Call(op, i, x, v, p) == [op |-> op, i |-> i, x |-> x, v |-> v, p |-> p]
Do(c, act) == act /\ UNCHANGED loader /\ hist' = Append(hist, c)

MCInit == Init /\ hist = <<>>
MCNext ==
  \/ \E i \in Index :
       \/ \E x \in Ids :
            \/ \E v \in Vecs : Do(Call("add", i, x, v, NoPath), Add(i, x, v))
            \/ Do(Call("addbad", i, x, 0, NoPath), AddBad(i, x))
            \/ Do(Call("get", i, x, 0, NoPath), Get(i, x))
       \/ \E q \in TreeCounts : Do(Call("build", i, q, 0, NoPath), Build(i, q))
       \/ \E p \in Paths : \/ Do(Call("save", i, 0, 0, p), Save(i, p))
                           \/ Do(Call("load", i, 0, 0, p), Load(i, p))
       \/ Do(Call("close", i, 0, 0, NoPath), Close(i))
       \/ Do(Call("all", i, 0, 0, NoPath), QueryAll(i))
       \/ Do(Call("qbad", i, 0, 0, NoPath), QueryBad(i))
  \/ \E p \in Paths :
       \/ Do(Call("rm", 0, 0, 0, p), EnvRemove(p))
       \/ \E k \in BadKinds : Do(Call("put-" \o k, 0, 0, 0, p), EnvPut(p, k))

MCSpec == MCInit /\ [][MCNext]_hvars

AbsView == <<vars, loader>>

(* Bound: few items per index. *)
Bound == \A i \in Index : Cardinality(DOMAIN items'[i]) <= MaxItems

EmitOK == Emit => PrintT("@@H " \o ToJson(hist'))
MCAction == Bound /\ EmitOK
=============================================================================
