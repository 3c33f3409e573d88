-------------------------------- MODULE Rng --------------------------------
(* Random generators: what is drawn depends on the seed and on what has been *)
(* drawn since the generator was made or seeded, and on nothing else. The    *)
(* machine here has a state of two words, like (but smaller than) the ones   *)
(* in the code. Way: "right", or broken: "partial" (seeding sets one word),  *)
(* "unreported" (seeding leaves the reported seed), "keeps" (a clone goes on *)
(* where the original is), "shared" (a clone and its original are the same), *)
(* "global" (all generators use one state), "zero" (what seed 0 stands for   *)
(* is reported by one of making and seeding only).                           *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Gens, Seeds, MaxDraws, MaxCalls, Way, Emit

VARIABLES st,      \* of each generator, the memory cell of its state
          mem,     \* of each memory cell, the state
          seed,    \* of each generator, the reported seed
          since,   \* of each generator, how much was drawn since it was (re)started
          asked,   \* of each generator, the seed that it was started with
          learned, \* <<seed, position>> -> what was drawn
          agrees, hist
rvars == <<st, mem, seed, since, asked, learned, agrees>>
vars == <<rvars, hist>>

Default == 5
Start(s) == <<IF s = 0 THEN Default ELSE s, 1>>
Step(x) == <<(x[1] * 5 + 3) % 16, (x[2] * 2 + 1) % 8>>
Out(x) == (x[1] + x[2]) % 16

Cell(g) == IF Way = "global" THEN 1 ELSE g
Live == DOMAIN seed
Reported(s, new) == IF s = 0 /\ ~(Way = "zero" /\ ~new) THEN Default ELSE s

Init == /\ st = <<>> /\ seed = <<>> /\ since = <<>> /\ asked = <<>>
        /\ mem = [c \in Gens |-> <<0, 0>>] /\ learned = <<>> /\ agrees = TRUE /\ hist = <<>>
Note(c) == hist' = IF Emit THEN Append(hist, c) ELSE hist
More == Len(hist) < MaxCalls \/ ~Emit

Put(f, k, v) == (k :> v) @@ f

New(g, s) ==
  /\ More
  /\ st' = Put(st, g, Cell(g))
  /\ mem' = [mem EXCEPT ![Cell(g)] = Start(s)]
  /\ seed' = Put(seed, g, Reported(s, TRUE)) /\ asked' = Put(asked, g, s) /\ since' = Put(since, g, 0)
  /\ UNCHANGED <<learned, agrees>> /\ Note(<<"new", g, s>>)
SetSeed(g, s) ==
  /\ More /\ g \in Live
  /\ mem' = [mem EXCEPT ![st[g]] = IF Way = "partial" THEN <<Start(s)[1], @[2]>> ELSE Start(s)]
  /\ seed' = IF Way = "unreported" THEN seed ELSE Put(seed, g, Reported(s, FALSE))
  /\ asked' = Put(asked, g, s) /\ since' = Put(since, g, 0)
  /\ UNCHANGED <<st, learned, agrees>> /\ Note(<<"seed", g, s>>)
Clone(g, h) ==
  /\ More /\ g \in Live /\ h # g
  /\ st' = Put(st, h, IF Way = "shared" THEN st[g] ELSE Cell(h))
  /\ mem' = [mem EXCEPT ![IF Way = "shared" THEN st[g] ELSE Cell(h)] =
                           IF Way = "keeps" THEN mem[st[g]] ELSE Start(seed[g])]
  /\ seed' = Put(seed, h, seed[g]) /\ asked' = Put(asked, h, seed[g]) /\ since' = Put(since, h, 0)
  /\ UNCHANGED <<learned, agrees>> /\ Note(<<"clone", g, h>>)
Draw(g) ==
  /\ More /\ g \in Live /\ since[g] < MaxDraws
  /\ LET x == Step(mem[st[g]])
         k == <<seed[g], since[g]>>
     IN /\ mem' = [mem EXCEPT ![st[g]] = x]
        /\ agrees' = (k \in DOMAIN learned => learned[k] = Out(x))
        /\ learned' = IF k \in DOMAIN learned THEN learned ELSE Put(learned, k, Out(x))
  /\ since' = [since EXCEPT ![g] = @ + 1]
  /\ UNCHANGED <<st, seed, asked>> /\ Note(<<"draw", g, 0>>)

Next == \/ \E g \in Gens, s \in Seeds : New(g, s) \/ SetSeed(g, s)
        \/ \E g, h \in Gens : Clone(g, h)
        \/ \E g \in Gens : Draw(g)
Spec == Init /\ [][Next]_vars

View == rvars
EmitAll == (Emit /\ hist' # hist) => PrintT("@@H " \o ToJson(hist'))

(* C20 *)
RECURSIVE After(_, _)
After(x, n) == IF n = 0 THEN x ELSE After(Step(x), n - 1)
SameStream == agrees
FromTheSeed == \A g \in Live : mem[st[g]] = After(Start(seed[g]), since[g])
Reports == \A g \in Live : seed[g] = asked[g] \/ asked[g] = 0
ZeroIsOne == \A g \in Live : asked[g] = 0 => seed[g] = Default
Apart == \A k, m \in DOMAIN learned : k[2] = 0 /\ m[2] = 0 /\ k[1] # m[1] => learned[k] # learned[m]
=============================================================================
