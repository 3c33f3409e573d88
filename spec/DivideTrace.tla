----------------------------- MODULE DivideTrace -----------------------------
(* Judges the splits of real trees with Divide's definitions.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dist

D == INSTANCE Divide WITH Items <- {}, K <- 0, Tries <- 3, GoodNum <- 95, GoodDen <- 100, WorstNum <- 99, WorstDen <- 100,
       Way <- "right", todo <- <<>>, tries <- 0, cut <- {}, made <- <<>>

J(name, ok) == [name |-> name, ok |-> ok]
Judged(js) == \A j \in {x \in js : ~x.ok} : PrintT(<<"@@R", l, j.name>>) /\ FALSE
Stop(why) == PrintT(<<"@@R", l, why>>) /\ FALSE

(* A split is <<items on the left, on the right, 1 if its normal is zero,    *)
(* items that lie clearly on the other side of the hyperplane>>.             *)
Left(s) == s[1]
Right(s) == s[2]
Chance(s) == s[3] = 1
Total(e) == FoldLeft(LAMBDA a, s : IF Chance(s) THEN a + Left(s) + Right(s) ELSE a, 0, e.splits)
Lean(e) == FoldLeft(LAMBDA a, s : IF Chance(s) THEN a + Left(s) - Right(s) ELSE a, 0, e.splits)

(* Two groups: <<of the first on the left, of the second, the same right>>.  *)
Parted(t) == (t[1] = 0 /\ t[4] = 0) \/ (t[2] = 0 /\ t[3] = 0)
DividedJ(e) ==
  { J("a split has more than 99 percent of its items on one side",
      \A j \in 1..Len(e.splits) : D!Bearable(Left(e.splits[j]), Right(e.splits[j]))),
    J("items are divided by chance, but not evenly",
      /\ \A j \in 1..Len(e.splits) : LET s == e.splits[j] IN Chance(s) => D!Fair(Left(s) - Right(s), Left(s) + Right(s))
      /\ D!Fair(Lean(e), Total(e))),
    J("items lie on the wrong side of a hyperplane", \A j \in 1..Len(e.splits) : e.splits[j][4] = 0),
    J("items in general position are divided by chance",
      e.what = "open" => Cardinality({j \in 1..Len(e.splits) : Chance(e.splits[j])}) * 50 <= Len(e.splits) + 150),
    J("two groups that lie apart are not kept apart",
      e.parted => Cardinality({j \in 1..Len(e.tops) : ~Parted(e.tops[j])}) * 6 <= Len(e.tops)) }

Follow(e) ==
  CASE e.op = "died" -> Stop("the build crashes or hangs")
    [] e.op = "failed" -> Stop("the build fails: " \o e.how)
    [] e.op = "cfg" -> dist' = e.kind.dist
    [] e.op = "divided" -> Judged(DividedJ(e)) /\ UNCHANGED dist

TraceInit == l = 1 /\ dist = ""
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Follow(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, dist>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
