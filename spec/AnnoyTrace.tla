----------------------------- MODULE AnnoyTrace -----------------------------
(* Checks recorded histories of the real code against Annoy: every call has *)
(* to end as the specification says, and what the caller can see afterwards *)
(* has to be what the specification's new state shows. Outcomes that no     *)
(* property asked for in Checks constrains are followed, not judged.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Checks == {IOEnv.PROP}

VARIABLES phase, items, trees, src, disk, loader

(* Only actions and outcomes of Annoy are used here, which do not depend on *)
(* its constants: each history starts with a line that gives the indexes.   *)
VARIABLES l,       \* next line
          cfg,     \* the line that started the history
          skip,    \* the rest of the history is not judged
          tok,     \* path -> token of the file's content (0: absent, -1: dir)
          dig,     \* index -> digest of its answers
          fdig,    \* path -> digest of the answers of the index in the file
          seen     \* index -> what was observed of it last

A == INSTANCE Annoy WITH
       Index <- {}, Ids <- {}, Vecs <- {}, Paths <- {}, TreeCounts <- {},
       LoaderChoices <- {}, Mapped <- {},
       BadKinds <- {}

avars == <<phase, items, trees, src, disk>>
vars == <<phase, items, trees, src, disk, loader, l, cfg, skip, tok, dig, fdig, seen>>

Idx == 1..cfg.nidx
P == {cfg.paths[k] : k \in 1..Len(cfg.paths)}
PNo(p) == CHOOSE k \in 1..Len(cfg.paths) : cfg.paths[k] = p
Unknown == "?"

Start(e) ==
  /\ cfg' = e
  /\ loader' = e.loader
  /\ phase' = [i \in 1..e.nidx |-> "open"]
  /\ items' = [i \in 1..e.nidx |-> A!Empty]
  /\ trees' = [i \in 1..e.nidx |-> 0]
  /\ src' = [i \in 1..e.nidx |-> A!NoPath]
  /\ disk' = [p \in {e.paths[k] : k \in 1..Len(e.paths)} |-> A!Absent]
  /\ tok' = [p \in {e.paths[k] : k \in 1..Len(e.paths)} |-> 0]
  /\ dig' = [i \in 1..e.nidx |-> Unknown]
  /\ fdig' = [p \in {e.paths[k] : k \in 1..Len(e.paths)} |-> Unknown]
  /\ seen' = [i \in 1..e.nidx |-> [vals |-> <<>>, reach |-> <<>>, dig |-> Unknown, tok |-> 0]]
  /\ skip' = FALSE

TraceInit ==
  /\ l = 1
  /\ cfg = [nidx |-> 0, paths |-> <<>>, loader |-> <<>>, mapped |-> <<>>, track |-> <<>>]
  /\ loader = <<>> /\ phase = <<>> /\ items = <<>> /\ trees = <<>> /\ src = <<>>
  /\ disk = <<>> /\ tok = <<>> /\ dig = <<>> /\ fdig = <<>>
  /\ seen = <<>> /\ skip = FALSE

-----------------------------------------------------------------------------
(* A judgement: the properties it belongs to, what it is about, the verdict. *)
J(props, name, ok) == [props |-> props, name |-> name, ok |-> ok]
Failed(js) == {j \in js : ~j.ok}
Judged(js) == \A j \in Failed(js) :
                 IF j.props \cap Checks = {} /\ ~("C18" \in Checks /\ cfg.kinds[1].dist = "dot") THEN TRUE
                 ELSE PrintT(<<"@@R", l, j.name>>) /\ FALSE

BadKindsSeen == {"absent", "empty", "odd", "short", "dir", "notree", "nonsense", "text", "tail", "cut", "orphans"}

(* The trees the specification expects: a build with -1 trees on an empty   *)
(* index has none to build.                                                 *)
TreesOf(i, q) == IF q = -1 THEN (IF DOMAIN items[i] = {} THEN 0 ELSE 1) ELSE q

Op1 == {"add", "addbad", "get", "build", "save", "saveno", "load", "close", "all", "qbad"}

Expected(e) ==
  CASE e.op = "add"    -> A!AddOut(e.i)
    [] e.op = "addbad" -> "refused"
    [] e.op = "get"    -> A!GetOut(e.i, e.x)
    [] e.op = "build"  -> A!BuildOut(e.i)
    [] e.op = "save"   -> A!SaveOut(e.i, e.p)
    [] e.op = "saveno" -> "err"   \* into a folder that does not exist
    [] e.op = "load"   -> A!LoadOut(e.p)
    [] e.op = "qbad"   -> "refused"
    [] OTHER           -> "ok"

(* Refusals may be panics or errors. *)
Same(exp, out) == \/ exp = out
                  \/ exp # "ok" /\ out \in {"err", "refused"}

(* Whom an unexpected outcome concerns. *)
OutProps(e) ==
  CASE e.op = "add"    -> IF A!AddOut(e.i) = "ok" THEN {"C01", "C08", "C15", "C21"} ELSE {"C08"}
    [] e.op = "addbad" -> {"C08"}
    [] e.op = "get"    -> {"C01"}
    [] e.op = "build"  -> {"C08", "C15", "C21"}
    [] e.op = "save"   -> IF A!SaveOut(e.i, e.p) = "ok" THEN {"C06", "C08", "C15", "C21"} ELSE {"C08"}
    [] e.op = "saveno" -> {"C07", "C08"}
    [] e.op = "load"   -> IF A!LoadOut(e.p) = "ok" THEN {"C06", "C08", "C15", "C21"} ELSE {"C15"}
    [] e.op = "close"  -> {"C08", "C16", "C21"}
    [] e.op = "qbad"   -> {"C08"}
    [] OTHER           -> {"C01", "C08", "C21"}

(* A gap between the ids may be read or not: nothing was promised. *)
Gap(e) == e.op = "get" /\ e.x < A!Span(items[e.i]) /\ e.x \notin DOMAIN items[e.i]

(* Dying or running off the rails is never right, whatever is judged. *)
OutcomeJ(e) ==
  { J(Checks, "the call crashes or hangs", e.out \in {"ok", "err", "refused"}),
    J(OutProps(e), "outcome: " \o Expected(e), Gap(e) \/ Same(Expected(e), e.out)) }

(* A load error of a refusing kind is an error, not a panic. *)
LoadErrJ(e) ==
  IF e.op = "load" /\ A!LoadOut(e.p) = "err"
  THEN {J({"C15"}, "a load fails with an error", e.out = "err")} ELSE {}

Agrees(e) == e.out \in {"ok", "err", "refused"} /\ (Gap(e) \/ Same(Expected(e), e.out))

(* The new abstract state, by the specification's own actions.              *)
Step(e) ==
  CASE e.op = "add"   -> A!Add(e.i, e.x, e.v)
    [] e.op = "build" -> A!Build(e.i, TreesOf(e.i, e.x))
    [] e.op = "save"  -> A!Save(e.i, e.p)
    [] e.op = "load"  -> A!Load(e.i, e.p)
    [] e.op = "close" -> A!Close(e.i)
    [] e.op = "rm"    -> IF disk[e.p].kind = "absent" THEN UNCHANGED avars
                         ELSE A!EnvRemove(e.p)
    [] e.op = "put"   -> A!EnvPut(e.p, e.kind)
    [] OTHER          -> UNCHANGED avars

(* Files: only a save changes one, and only its own.                        *)
Writes(e) == IF e.op \in {"rm", "put"} \/ (e.op = "save" /\ e.out = "ok") THEN {e.p} ELSE {}
NewTok(e) == [p \in P |-> e.fs[PNo(p)]]

(* Saving what was loaded (or saved before) repeats the file: the digest of *)
(* the index' answers is known, and the file it came from still known too.  *)
Resaved(e) == e.op = "save" /\ e.out = "ok" /\ phase[e.i] = "loaded" /\ seen[e.i].tok # 0

FilesJ(e) ==
  { J({"C08", "C15", "C21", "C07"}, "a file changed", \A p \in P \ Writes(e) : NewTok(e)[p] = tok[p]),
    J({"C07", "C08", "C15"}, "a stray file", e.stray = 0),
    J({"C06", "C08", "C07"}, "a save without a file",
        (e.op = "save" /\ e.out = "ok") => NewTok(e)[e.p] > 0),
    J({"C06"}, "saved again with another content",
        Resaved(e) => NewTok(e)[e.p] = seen[e.i].tok) }

(* Mappings, descriptors, and what the loaders say. *)
MapsJ(e) ==
  { J({"C16"}, "mappings of a file",
        \A p \in P : e.maps[PNo(p)] =
            Cardinality({i \in Idx : src'[i] = p /\ cfg.mapped[i]})),
    J({"C16"}, "open descriptors of a file",
        \A p \in P : e.fds[PNo(p)] <=
            Cardinality({i \in Idx : src'[i] = p /\ cfg.mapped[i]})),
    J({"C16"}, "the loader's registry",
        \A ld \in 1..Len(e.reg) : \A p \in P :
          LET said == e.reg[ld][PNo(p)]
              held == \E i \in Idx : src'[i] = p /\ loader[i] = ld
          IN said = 2 \/ said = (IF held THEN 1 ELSE 0)) }

-----------------------------------------------------------------------------
(* What is seen of an index.                                                *)
Val(i, x) == IF x \in DOMAIN items'[i] THEN items'[i][x]
             ELSE IF x < A!Span(items'[i]) THEN 0 ELSE -2

ItemsJ(e, i) ==
  J(IF i = e.i THEN {"C01"} \cup (IF Expected(e) = "ok" THEN {} ELSE {"C08"})
                            \cup (IF e.op \in {"save", "load"} THEN {"C06"} ELSE {})
               ELSE {"C01", "C21"},
    "an item reads back",
    \A k \in 1..Len(cfg.track) :
       LET x == cfg.track[k] IN
       \/ e.vals[i][k] = Val(i, x)
       \/ x \notin DOMAIN items'[i] /\ x < A!Span(items'[i]) /\ e.vals[i][k] \in {0, -2})

SetOf(s) == {s[k] : k \in 1..Len(s)}
ReachExp(i) == IF trees'[i] = 0 THEN {} ELSE DOMAIN items'[i]
ReachJ(e, i) ==
  J(IF i = e.i THEN {"C08"} \cup (IF e.op \in {"save", "load"} THEN {"C06"} ELSE {})
                            \cup (IF e.op = "load" THEN {"C15"} ELSE {})
               ELSE {"C21"},
    "items that an unlimited search finds",
    SetOf(e.reach[i]) = ReachExp(i) /\ Len(e.reach[i]) = Cardinality(ReachExp(i)))

(* The digest of answers an index must show now; Unknown if any is right.   *)
DigExp(e, i) ==
  IF i # e.i THEN dig[i]
  ELSE IF e.op = "load" /\ e.out = "ok" THEN fdig[e.p]
  ELSE IF e.op \in {"add", "build", "close", "load"} /\ (e.out = "ok" \/ e.op = "load") THEN Unknown
  ELSE dig[i]
DigJ(e, i) ==
  J(IF i = e.i THEN {"C06", "C08"} ELSE {"C21"}, "answers of the index",
    DigExp(e, i) = Unknown \/ trees'[i] = 0 \/ e.dig[i] = DigExp(e, i))

(* Where nothing may change, nothing does, whatever the state was.          *)
StillJ(e, i) ==
  J(IF i = e.i THEN {"C08"} ELSE {"C21"}, "a refused call or one on another index changes it",
    \/ seen[i].dig = Unknown
    \/ i = e.i /\ ~(e.out \in {"err", "refused"} /\ e.op # "load")
    \/ e.vals[i] = seen[i].vals /\ e.reach[i] = seen[i].reach /\ e.dig[i] = seen[i].dig)

ObservedJ(e) ==
  IF e.full
  THEN UNION {{ItemsJ(e, i), ReachJ(e, i), DigJ(e, i), StillJ(e, i)} : i \in Idx}
  ELSE {}

(* Bookkeeping of digests.                                                  *)
KnownDig(e, i) == IF e.full THEN e.dig[i] ELSE DigExp(e, i)
LoadedTok(e, i) ==
  IF i # e.i THEN seen[i].tok
  ELSE IF e.out = "ok" /\ e.op \in {"save", "load"} THEN NewTok(e)[e.p]
  ELSE IF e.op \in {"load", "close"} THEN 0 ELSE seen[i].tok

Update(e) ==
  /\ tok' = NewTok(e)
  /\ dig' = [i \in Idx |-> IF trees'[i] = 0 THEN Unknown ELSE KnownDig(e, i)]
  /\ fdig' = [p \in P |->
               IF p \notin Writes(e) THEN fdig[p]
               ELSE IF e.op = "save" /\ e.out = "ok" THEN KnownDig(e, e.i) ELSE Unknown]
  /\ seen' = [i \in Idx |->
               [vals  |-> IF e.full THEN e.vals[i] ELSE <<>>,
                reach |-> IF e.full THEN e.reach[i] ELSE <<>>,
                dig   |-> IF e.full THEN e.dig[i] ELSE Unknown,
                tok   |-> LoadedTok(e, i)]]

(* One line of the trace. *)
Follow(e) ==
  IF e.op = "died" THEN PrintT(<<"@@R", l, "the call crashes or hangs">>) /\ FALSE
  ELSE IF e.op = "cfg" THEN Start(e)
  ELSE IF skip THEN UNCHANGED <<avars, loader, cfg, skip, tok, dig, fdig, seen>>
  ELSE /\ Judged(OutcomeJ(e) \cup LoadErrJ(e))
       /\ IF Agrees(e)
          THEN /\ Step(e)
               /\ UNCHANGED <<loader, cfg, skip>>
               /\ Judged(FilesJ(e) \cup MapsJ(e) \cup ObservedJ(e))
               /\ Update(e)
          ELSE /\ skip' = TRUE
               /\ UNCHANGED <<avars, loader, cfg, tok, dig, fdig, seen>>

TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Follow(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
