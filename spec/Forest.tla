------------------------------- MODULE Forest -------------------------------
(* The recursive construction of the trees, step by step, with every way a   *)
(* hyperplane (or, failing that, chance) may divide the items. The result    *)
(* has to be a sound forest whatever the divisions are.                      *)
EXTENDS ForestDef, TLC

CONSTANTS K,        \* children that fit into a node
          MaxSpan,  \* ids are below this
          MaxTrees

VARIABLES ids,      \* the items added
          q,        \* trees asked for
          nodes,    \* nodes of the trees: number n + j - 1 is nodes[j]
          stack,    \* the calls of makeTree that are not finished
          ret,      \* node number a call has just returned, or None
          roots,
          copied    \* the copies of the roots have been appended

vars == <<ids, q, nodes, stack, ret, roots, copied>>
None == -1

n == IF ids = {} THEN 0 ELSE 1 + CHOOSE m \in ids : \A x \in ids : x <= m
Node(x) == nodes[x - n + 1]
Next0 == n + Len(nodes)      \* the next node number

Init == /\ ids \in SUBSET (0..(MaxSpan - 1))
        /\ q \in 1..MaxTrees
        /\ nodes = <<>> /\ stack = <<>> /\ ret = None /\ roots = <<>> /\ copied = FALSE

Top == stack[Len(stack)]
Popped == SubSeq(stack, 1, Len(stack) - 1)
Call(S, root) == [s |-> S, root |-> root, todo |-> <<>>, kids |-> <<>>, split |-> FALSE]

(* A tree for all items. *)
StartTree ==
  /\ stack = <<>> /\ ret = None /\ Len(roots) < q
  /\ stack' = <<Call(ids, TRUE)>>
  /\ UNCHANGED <<ids, q, nodes, ret, roots, copied>>

Fresh == stack # <<>> /\ ret = None /\ ~Top.split

(* A single item needs no node. *)
JustItem ==
  /\ Fresh /\ Cardinality(Top.s) = 1 /\ ~Top.root
  /\ ret' = CHOOSE x \in Top.s : TRUE
  /\ stack' = Popped
  /\ UNCHANGED <<ids, q, nodes, roots, copied>>

IsBucket ==
  LET c == Cardinality(Top.s)
  IN c <= K /\ (~Top.root \/ n <= K \/ c = 1) /\ (Top.root \/ c # 1)

Sorted(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => s[i] < s[j]
Pad(s, len) == [j \in 1..len |-> IF j <= Len(s) THEN s[j] ELSE 0]

Bucket ==
  /\ Fresh /\ IsBucket
  /\ LET d == IF Top.root THEN n ELSE Cardinality(Top.s)
     IN nodes' = Append(nodes, [d |-> d, k |-> Pad(Sorted(Top.s), IF d > K THEN 2 ELSE d)])
  /\ ret' = Next0
  /\ stack' = Popped
  /\ UNCHANGED <<ids, q, roots, copied>>

(* The items are divided; both sides get some. The smaller side goes first. *)
Split ==
  /\ Fresh /\ ~IsBucket /\ ~(Cardinality(Top.s) = 1 /\ ~Top.root)
  /\ \E L \in SUBSET Top.s :
       /\ L # {} /\ L # Top.s
       /\ stack' = [stack EXCEPT ![Len(stack)].split = TRUE,
                                 ![Len(stack)].kids = <<None, None>>,
                                 ![Len(stack)].todo =
                       IF Cardinality(L) > Cardinality(Top.s \ L)
                       THEN <<[side |-> 2, s |-> Top.s \ L], [side |-> 1, s |-> L]>>
                       ELSE <<[side |-> 1, s |-> L], [side |-> 2, s |-> Top.s \ L]>>]
  /\ UNCHANGED <<ids, q, nodes, ret, roots, copied>>

Descend ==
  /\ stack # <<>> /\ ret = None /\ Top.split /\ Top.todo # <<>>
  /\ stack' = Append(stack, Call(Top.todo[1].s, FALSE))
  /\ UNCHANGED <<ids, q, nodes, ret, roots, copied>>

(* A call returns to its caller, or a tree is finished. *)
Return ==
  /\ ret # None
  /\ IF stack = <<>>
     THEN roots' = Append(roots, ret) /\ UNCHANGED stack
     ELSE /\ stack' = [stack EXCEPT ![Len(stack)].kids[Top.todo[1].side] = ret,
                                    ![Len(stack)].todo = Tail(@)]
          /\ UNCHANGED roots
  /\ ret' = None
  /\ UNCHANGED <<ids, q, nodes, copied>>

(* The split node itself is stored after its children. *)
Store ==
  /\ stack # <<>> /\ ret = None /\ Top.split /\ Top.todo = <<>>
  /\ nodes' = Append(nodes, [d |-> IF Top.root THEN n ELSE Cardinality(Top.s), k |-> Top.kids])
  /\ ret' = Next0
  /\ stack' = Popped
  /\ UNCHANGED <<ids, q, roots, copied>>

Copy ==
  /\ stack = <<>> /\ ret = None /\ Len(roots) = q /\ ~copied
  /\ nodes' = nodes \o [j \in 1..q |-> Node(roots[j])]
  /\ copied' = TRUE
  /\ UNCHANGED <<ids, q, stack, ret, roots>>

Next == StartTree \/ JustItem \/ Bucket \/ Split \/ Descend \/ Return \/ Store \/ Copy
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* C02: every finished tree is sound and has every item once. *)
TreesOK == \A r \in SeqSet(roots) : RootOK(Node, r, n, ids, K)
(* No node is lost or in two trees. *)
AllUsed ==
  (stack = <<>> /\ ret = None /\ ~copied) =>
    LET all == [j \in 1..Len(roots) |-> RootInner(Node, roots[j], n, Cardinality(ids), K)]
    IN /\ UNION {SeqSet(all[j]) : j \in 1..Len(roots)} = n..(Next0 - 1)
       /\ \A i, j \in 1..Len(roots) : i # j => SeqSet(all[i]) \cap SeqSet(all[j]) = {}
(* C06, C23: the roots are found again in the file. *)
RootsFound ==
  copied => /\ Recovered(Node, n, Next0) = (Next0 - q)..(Next0 - 1)
            /\ Node(Next0 - 1).d = n
(* C02: the construction ends. *)
Ends == <>copied
=============================================================================
