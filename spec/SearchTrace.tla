---------------------------- MODULE SearchTrace ----------------------------
(* Judges recorded searches by SearchDef.                                    *)
EXTENDS SearchDef, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Checks == {IOEnv.PROP}

VARIABLES l,
          forest,  \* leaves, items, number of trees of the index searched
          memo,    \* query -> the answer given first, and in which state
          best     \* query and k -> answers by budget

vars == <<l, forest, memo, best>>

J(props, name, ok) == [props |-> props, name |-> name, ok |-> ok]
Judged(js) == \A j \in {x \in js : ~x.ok} :
                 IF j.props \cap Checks = {} /\ ~("C18" \in Checks /\ forest.dot) THEN TRUE
                 ELSE PrintT(<<"@@R", l, j.name>>) /\ FALSE

NoForest == [leaf |-> <<>>, ids |-> {}, pos |-> <<>>, q |-> 0, dot |-> FALSE, hand |-> FALSE]

SetForest(e) ==
  forest' = [leaf |-> [j \in 1..Len(e.leaf) |-> [sz |-> e.leaf[j].sz, it |-> SetOfSeq(e.leaf[j].it)]],
             ids |-> SetOfSeq(e.ids),
             pos |-> [x \in SetOfSeq(e.ids) |-> CHOOSE j \in 1..Len(e.ids) : e.ids[j] = x],
             q |-> e.q, dot |-> forest.dot, hand |-> forest.hand]

(* Everything that holds for angular indexes holds for dot product ones, too *)
(* (C18: see Judged), and for those in files from elsewhere (C23).           *)
For(P) == P \cup (IF forest.hand THEN {"C23"} ELSE {})

N == Cardinality(forest.ids)
All == Amount(forest.leaf, LAMBDA y : TRUE)    \* deep recursion: not of large forests

FormedJ(e) ==
  { J(For({"C04", "C03", "C05", "C06", "C12"}), "a search does not return normally", e.out = "ok"),
    J(For({"C04"}), "more results than asked for", Len(e.res) <= Largest(e.k, 0) /\ e.lens),
    J(For({"C04"}), "results are not distinct", DistinctOK(e.res)),
    J(For({"C04"}), "a result is no item", SetOfSeq(e.res) \subseteq forest.ids),
    J(For({"C04"}), "distances are not in order", e.asc),
    J(For({"C04", "C19"}), "a distance is not a number", ~e.nan),
    J(For({"C04"}), "the default search gives too few results",
        e.b = -1 => Len(e.res) = Least(Largest(e.k, 0), N)) }

(* In a large forest the leaves come in their order, with the number of      *)
(* candidates up to each, and how many are visited surely and at most.       *)
Ranked(e) == "ord" \in DOMAIN e
Cum(e, j) == IF j = 0 THEN 0 ELSE e.cum[j]
Gap(e, j) == j = 0 \/ j = Len(e.ord) \/ e.eff[e.ord[j]] > e.eff[e.ord[j + 1]] + e.tol
RankOK(e, b) ==
  /\ Len(e.ord) = Len(forest.leaf) /\ SetOfSeq(e.ord) = 1..Len(forest.leaf) /\ Len(e.cum) = Len(e.ord)
  /\ \A j \in 1..Len(e.ord) : /\ e.cum[j] = Cum(e, j - 1) + forest.leaf[e.ord[j]].sz
                             /\ j > 1 => e.eff[e.ord[j - 1]] >= e.eff[e.ord[j]]
  /\ Gap(e, e.sure) /\ (Cum(e, e.sure) <= b \/ (e.sure > 0 /\ Gap(e, e.sure - 1) /\ Cum(e, e.sure - 1) < b))
  /\ Gap(e, e.most) /\ (Cum(e, e.most) >= b \/ e.most = Len(e.ord))
First(e, j) == UNION {forest.leaf[e.ord[i]].it : i \in 1..j}

TrueJ(e) ==
  LET D == [x \in forest.ids |-> e.D[forest.pos[x]]]
      B == Budget(e.b, e.k, forest.q)
      S == IF Ranked(e) THEN First(e, e.sure) ELSE SureItems(forest.leaf, e.eff, B, e.tol)
      M == IF Ranked(e) THEN First(e, e.most) ELSE MaybeItems(forest.leaf, e.eff, B, e.tol)
      k == Largest(e.k, 0)
      full == B >= (IF Ranked(e) THEN Cum(e, Len(e.ord)) ELSE All)
      P == For(IF full THEN {"C03", "C05"} ELSE {"C05"})
  IN { IF Ranked(e) => RankOK(e, B) THEN J({}, "", TRUE) ELSE Assert(FALSE, "wrong order of leaves"),
       J(For({"C04", "C03"}), "a reported distance is not the distance",
           \A j \in 1..Len(e.res) : LET d == e.rd[j] - D[e.res[j]] IN d <= e.dtol /\ d >= -e.dtol),
       J(P, "number of results", CountOK(e.res, S, M, k)),
       J(P, "a result out of a part that is not to be visited", FromOK(e.res, M)),
       J(P, "a nearer candidate is left out", NearestOK(e.res, S, D, 2 * e.dtol, k)),
       J(For({"C03", "C04"}), "results are not nearest first", OrderOK(e.res, D, 2 * e.dtol)),
       \* C03 needs no trees to be said
       J(For({"C03", "C04"}), "an unlimited search is not exact",
           (full /\ B >= forest.q * N) =>
              CountOK(e.res, forest.ids, forest.ids, k) /\ NearestOK(e.res, forest.ids, D, 2 * e.dtol, k)),
       J(For({"C05"}), "a stored vector is not found",
           \* in general position: it is not in a plane, and so no chance was involved
           (e.self >= 0 /\ e.k >= 1 /\ e.b = -1 /\ ~forest.dot /\
            \A j \in 1..Len(forest.leaf) : e.self \in forest.leaf[j].it => (e.eff[j] > e.tol \/ e.eff[j] < -e.tol))
           => /\ e.self \in SetOfSeq(e.res) \/ (\E j \in 1..Len(e.res) : D[e.res[j]] <= 2 * e.dtol)
              /\ Len(e.res) >= 1 /\ D[e.res[1]] <= D[e.self] + 2 * e.dtol) }

(* A larger budget never gives a worse answer.                               *)
NotWorse(r1, r2) == Len(r1) <= Len(r2) /\ \A j \in 1..Len(r1) : r2[j] <= r1[j]
BetterJ(e) ==
  LET B == Budget(e.b, e.k, forest.q)
  IN { J(For({"C05"}), "a larger budget gives a worse answer",
          e.grp \in DOMAIN best =>
            \A o \in best[e.grp] : /\ o.b <= B => NotWorse(o.rd, e.rd)
                                   /\ B <= o.b => NotWorse(e.rd, o.rd)) }
NoteBest(e) ==
  best' = IF e.grp \in DOMAIN best
          THEN [best EXCEPT ![e.grp] = @ \cup {[b |-> Budget(e.b, e.k, forest.q), rd |-> e.rd]}]
          ELSE best @@ (e.grp :> {[b |-> Budget(e.b, e.k, forest.q), rd |-> e.rd]})

(* The same question has the same answer, whenever it is asked.              *)
Phase(st) == IF st \in {"built", "saved", "loaded"} THEN st ELSE "any"
MemoJ(e) ==
  IF e.key \notin DOMAIN memo THEN {}
  ELSE LET o == memo[e.key]
           later == Phase(o.st) # Phase(e.st) /\ Phase(e.st) # "any"
       IN { J(For(IF later THEN {"C06"} ELSE {"C12"}), "another answer to the same query", o.hash = e.hash) }
NoteMemo(e) == memo' = IF e.key \in DOMAIN memo THEN memo
                       ELSE memo @@ (e.key :> [hash |-> e.hash, st |-> e.st])

DistJ(e) ==
  { J(For({"C04", "C19"}), "distance between items",
      \A j \in 1..Len(e.pairs) : LET p == e.pairs[j]  d == p[3] - p[4]
                                 IN d <= e.dtol /\ d >= -e.dtol /\ p[5] = 1) }

(* The priority of a node is ruled by the worst margin on the way to it.     *)
WorstJ(e) ==
  { J(For({"C05"}), "the worst margin on the way does not rule",
      \A a, b \in 1..Len(e.ways) : e.ways[a][1] > e.ways[b][1] => e.ways[a][2] > e.ways[b][2]) }

SameProps(e) == IF e.what = "the file saved again" THEN {"C23", "C06"}
                ELSE IF e.what = "the items of the file" THEN {"C23", "C01"} ELSE {"C12"}

Follow(e) ==
  CASE e.op = "died" -> PrintT(<<"@@R", l, "a call crashes or hangs">>) /\ FALSE
    [] e.op = "failed" -> PrintT(<<"@@R", l, "a call fails: " \o e.how>>) /\ FALSE
    [] e.op = "cfg" -> /\ forest' = [NoForest EXCEPT !.hand = (e.family = "handmade"), !.dot = (e.kind.dist = "dot")]
                       /\ memo' = <<>> /\ best' = <<>>
    [] e.op = "forest" -> SetForest(e) /\ UNCHANGED <<memo, best>>
    [] e.op = "query" -> /\ Judged(FormedJ(e))
                         /\ IF e.out = "ok" /\ SetOfSeq(e.res) \subseteq forest.ids
                            THEN Judged(TrueJ(e) \cup BetterJ(e) \cup MemoJ(e)) /\ NoteBest(e)
                            ELSE UNCHANGED best
                         /\ NoteMemo(e)
                         /\ UNCHANGED forest
    [] e.op = "answer" -> Judged(MemoJ(e)) /\ NoteMemo(e) /\ UNCHANGED <<forest, best>>
    [] e.op = "dist" -> Judged(DistJ(e)) /\ UNCHANGED <<forest, memo, best>>
    [] e.op = "pq" -> Judged(WorstJ(e)) /\ UNCHANGED <<forest, memo, best>>
    [] e.op = "same" -> /\ Judged({J(SameProps(e), "changed: " \o e.what, e.a = e.b)})
                        /\ UNCHANGED <<forest, memo, best>>

TraceInit == l = 1 /\ forest = NoForest /\ memo = <<>> /\ best = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Follow(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
