---------------------------- MODULE ForestTrace ----------------------------
(* Judges recorded builds: what the file of the finished index holds         *)
(* (ForestDef), how the policy divided the work, and what repeated builds    *)
(* gave.                                                                     *)
EXTENDS ForestDef, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Checks == {IOEnv.PROP}

VARIABLES l, case

(* Everything that holds for angular indexes holds for dot product ones.     *)
Dot == "kind" \in DOMAIN case /\ case.kind.dist = "dot"

J(props, name, ok) == [props |-> props, name |-> name, ok |-> ok]
Judged(js) == \A j \in {x \in js : ~x.ok} :
                 IF j.props \cap Checks = {} /\ ~("C18" \in Checks /\ Dot) THEN TRUE
                 ELSE PrintT(<<"@@R", l, j.name>>) /\ FALSE

-----------------------------------------------------------------------------
(* The forest in the file.                                                   *)
NodeAt(e, x) == e.nodes[x - e.n + 1]
Ids(e) == SeqSet(e.ids)

(* The roots are found by the layout alone: their copies come last.          *)
RootsOf(e) == Recovered(LAMBDA x : NodeAt(e, x), e.n, e.N)
Copies(e) == Cardinality(RootsOf(e))
Body(e) == e.n .. (e.N - 1 - Copies(e))        \* nodes of trees
Originals(e) == {x \in Body(e) : NodeAt(e, x).d = e.n}

HasNodes(e) == e.N > e.n /\ Len(e.nodes) = e.N - e.n

(* An index is a forest for the items: C02.                                  *)
TreesSound(e) ==
  /\ HasNodes(e)
  /\ \A r \in RootsOf(e) : RootOK(LAMBDA x : NodeAt(e, x), r, e.n, Ids(e), e.K)

(* Exactly the trees asked for: C10.                                         *)
Count(e) == e.q # -1 => (HasNodes(e) /\ Copies(e) = e.q)

(* With -1 trees: every worker goes on until there are 2n nodes.             *)
TreeSizes(e) == {Len(RootInner(LAMBDA x : NodeAt(e, x), r, e.n, Cardinality(Ids(e)), e.K)) : r \in RootsOf(e)}
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
MinOf(S) == CHOOSE m \in S : \A x \in S : x >= m
Enough(e) ==
  e.q = -1 =>
    LET total == e.N - Copies(e)
    IN /\ total >= 2 * e.n
       \* a tree was begun when there were fewer than 2n nodes, and no worker
       \* has begun another one after that
       /\ IF e.w = 1
          THEN LET last == MaxOf(Originals(e))
                   \* a root is stored last in its tree
                   size == Len(RootInner(LAMBDA x : NodeAt(e, x), last, e.n, Cardinality(Ids(e)), e.K))
               IN total - size < 2 * e.n
          ELSE total < 2 * e.n + e.w * MaxOf(TreeSizes(e))

(* The layout: C23.                                                          *)
ItemsLaid(e) == \A j \in 1..Len(e.items) :
                  LET it == e.items[j] IN it[1] = e.ids[j] /\ it[2] = 1 /\ it[3] = 1 /\ it[4] = 1
GapsLaid(e) == Len(e.gapbad) = 0
CopiesLaid(e) ==
  /\ {NodeAt(e, x).h : x \in RootsOf(e)} = {NodeAt(e, x).h : x \in Originals(e)}
  /\ Cardinality(Originals(e)) = Copies(e)
AllNodesUsed(e) ==
  LET inner == [r \in Originals(e) |-> RootInner(LAMBDA x : NodeAt(e, x), r, e.n, Cardinality(Ids(e)), e.K)]
  IN /\ UNION {SeqSet(inner[r]) : r \in Originals(e)} = Body(e)
     /\ \A r, s \in Originals(e) : r # s => SeqSet(inner[r]) \cap SeqSet(inner[s]) = {}
NormalsOK(e) == \A x \in Body(e) : NodeAt(e, x).s => NodeAt(e, x).u \in {0, 1}

Pos(e, id) == CHOOSE j \in 1..Len(e.ids) : e.ids[j] = id
(* Nobody lies clearly on the wrong side of a hyperplane.                    *)
SidesOK(e) ==
  (e.signs /\ RootKind(e.n, Cardinality(Ids(e)), e.K) = "split") =>
    \A x \in Body(e) :
      LET nd == NodeAt(e, x) IN
      nd.s =>
        /\ \A id \in Below(LAMBDA y : NodeAt(e, y), nd.k[1], e.n, e.K) : nd.sg[Pos(e, id)] <= 0
        /\ \A id \in Below(LAMBDA y : NodeAt(e, y), nd.k[2], e.n, e.K) : nd.sg[Pos(e, id)] >= 0

ForestJ(e) ==
  { J({"C02", "C09"}, "a tree does not hold every item exactly once", TreesSound(e)),
    J({"C10", "C09"}, "number of trees", Count(e)),
    J({"C23"}, "the file is no whole number of nodes", e.rest = 0),
    J({"C23", "C02", "C09"}, "an item is not laid out as an item", ItemsLaid(e)),
    J({"C23"}, "items of a dot product index are not lifted onto one sphere", Len(e.unlifted) = 0),
    J({"C23"}, "a gap between the ids is no empty node", GapsLaid(e)) }
(* What only makes sense of sound trees.                                     *)
SoundJ(e) ==
  IF ~TreesSound(e) THEN {J({"C23"}, "broken trees", FALSE)}
  ELSE { J({"C10"}, "trees built with -1", Enough(e)),
         J({"C23"}, "copies of the roots", CopiesLaid(e)),
         J({"C23", "C09"}, "nodes that belong to no tree or to two", AllNodesUsed(e)),
         J({"C23"}, "a normal is neither a unit vector nor zero", NormalsOK(e)),
         J({"C23"}, "an item is on the wrong side of a hyperplane", SidesOK(e)) }

-----------------------------------------------------------------------------
(* The division of the work: C10. A call is <<worker, trees>>.               *)
SharesOK(e) ==
  LET W == IF ~e.multi THEN 1 ELSE IF e.w = 0 THEN 1 ELSE IF e.w = -1 THEN e.cpu ELSE e.w
      C == e.calls
      S == {C[j][2] : j \in 1..Len(C)}
      Sum[j \in 0..Len(C)] == IF j = 0 THEN 0 ELSE Sum[j - 1] + C[j][2]
  IN /\ Len(C) = W
     /\ {C[j][1] : j \in 1..Len(C)} = 0..(W - 1)
     /\ IF e.q = -1 THEN S = {-1}
        ELSE Sum[Len(C)] = e.q /\ MinOf(S) >= 0 /\ MaxOf(S) - MinOf(S) <= 1
     /\ e.late = 0
SharesJ(e) == { J({"C10"}, "division of the trees", SharesOK(e)) }

-----------------------------------------------------------------------------
(* Repeated builds: C11.                                                     *)
RepeatJ(e) ==
  { J({"C11"}, "builds differ", \A j \in 2..Len(e.hashes) : e.hashes[j] = e.hashes[1]),
    J({"C11"}, "files differ", e.single => \A j \in 2..Len(e.files) : e.files[j] = e.files[1]),
    J({"C11"}, "trees are the same",
       e.generic => \A j \in 1..Len(e.hashes) :
          \A a, b \in 1..Len(e.hashes[j]) : a # b => e.hashes[j][a] # e.hashes[j][b]),
    J({"C11", "C10"}, "trees are missing", \A j \in 1..Len(e.hashes) : Len(e.hashes[j]) = e.q) }

-----------------------------------------------------------------------------
(* Builds too large to be written down: what is wrong is counted. A tree is  *)
(* <<items that it lacks, has twice, has though there are none, nodes with a *)
(* wrong number of descendants>>, an answer <<asked, results, results twice, *)
(* no items, out of order, wrong distances, nearer items left out,           *)
(* default budget?>>.                                                        *)
NoneLost(e) == \A j \in 1..Len(e.trees) : e.trees[j] = <<0, 0, 0, 0>>
Filled(a, n) == a[2] = (IF a[1] < n THEN a[1] ELSE n)
Answered(a, n) == a[8] = 1 \/ (Filled(a, n) /\ \A k \in 3..7 : a[k] = 0)
CrowdJ(e) ==
  { J({"C02", "C09"}, "a tree does not hold every item exactly once", NoneLost(e)),
    J({"C10", "C02"}, "number of trees", Len(e.trees) = e.q),
    J({"C01"}, "an item reads back differently", e.changed = 0),
    J({"C06"}, "an item, or an answer, is not the same after saving and loading", e.reloaded = 0 /\ e.differ = 0),
    J({"C06", "C23"}, "an item is not laid out as an item, or the file is no whole number of nodes", e.unlaid = 0),
    J({"C03"}, "a search for everything leaves something out", \A j \in 1..Len(e.answers) : Answered(e.answers[j], e.count)),
    J({"C04"}, "an answer is not well-formed", \A j \in 1..Len(e.answers) : LET a == e.answers[j] IN (IF a[8] = 1 THEN Filled(a, e.count) ELSE a[2] <= a[1]) /\ a[3] = 0 /\ a[4] = 0 /\ a[5] = 0) }

-----------------------------------------------------------------------------
Follow(e) ==
  CASE e.op = "died" -> PrintT(<<"@@R", l, "the build crashes or hangs">>) /\ FALSE
    [] e.op = "failed" -> PrintT(<<"@@R", l, "the build fails: " \o e.how>>) /\ FALSE
    [] e.op = "cfg" -> case' = e
    [] e.op = "forest" -> Judged(ForestJ(e)) /\ Judged(SoundJ(e)) /\ UNCHANGED case
    [] e.op = "shares" -> Judged(SharesJ(e)) /\ UNCHANGED case
    [] e.op = "crowd" -> Judged(CrowdJ(e)) /\ UNCHANGED case
    [] e.op = "repeat" -> Judged(RepeatJ(e)) /\ UNCHANGED case

TraceInit == l = 1 /\ case = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Follow(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, case>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
