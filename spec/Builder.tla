------------------------------ MODULE Builder ------------------------------
(* Builders collect settings, and make indexes of them. A setting is one of   *)
(* Fields; 0 stands for its default, and is what nobody asked for.            *)
(*                                                                           *)
(* Way: "right", or: "late" (indexes follow what their builder is told later *)
(* on), "first" (what was set cannot be replaced), "reset" (a builder starts *)
(* over when it has made an index), "shared" (all builders are the same one),*)
(* "sticks" (defaults that were used once cannot be replaced), "others"      *)
(* (setting one field takes another one back), "once" (the second index is   *)
(* made with the default of a field).                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Builders, Fields, Values, Must, MaxOps, MaxMade, Way, Emit

VARIABLES want,   \* builder -> field -> what was asked for last
          has,    \* builder -> field -> what the builder keeps
          fixed,  \* builder -> fields that cannot be set any more
          made,   \* the indexes: [b, want, has]
          n, hist
bvars == <<want, has, fixed, made>>
vars == <<bvars, n, hist>>

Nothing == [f \in Fields |-> 0]
Init ==
  /\ want = [b \in Builders |-> Nothing] /\ has = want /\ fixed = [b \in Builders |-> {}]
  /\ made = <<>> /\ n = 0 /\ hist = <<>>

Other(f) == IF Cardinality(Fields) < 2 THEN f ELSE CHOOSE g \in Fields : g # f
Set(b, f, v) ==
  /\ want' = [want EXCEPT ![b][f] = v]
  /\ has' = [c \in Builders |->
       IF c # b /\ Way # "shared" THEN has[c]
       ELSE IF f \in fixed[c] \/ (Way = "first" /\ has[c][f] # 0) THEN has[c]
       ELSE IF Way = "others" THEN [has[c] EXCEPT ![f] = v, ![Other(f)] = 0]
       ELSE [has[c] EXCEPT ![f] = v]]
  /\ UNCHANGED <<fixed, made>>

Make(b) ==
  /\ \A f \in Must : want[b][f] # 0
  /\ Len(made) < MaxMade
  /\ LET again == \E k \in 1..Len(made) : made[k].b = b
         h == IF Way = "once" /\ again THEN [has[b] EXCEPT ![CHOOSE f \in Fields : TRUE] = 0] ELSE has[b]
     IN made' = Append(made, [b |-> b, want |-> want[b], has |-> h])
  /\ has' = IF Way = "reset" THEN [has EXCEPT ![b] = Nothing] ELSE has
  /\ fixed' = IF Way = "sticks" THEN [fixed EXCEPT ![b] = @ \cup {f \in Fields : has[b][f] = 0}] ELSE fixed
  /\ UNCHANGED want

Op(name, b, f, v) ==
  n < MaxOps /\ n' = n + 1 /\ hist' = IF Emit THEN Append(hist, <<name, b, f, v>>) ELSE hist
Next ==
  \/ \E b \in Builders, f \in Fields, v \in Values : Op("set", b, f, v) /\ Set(b, f, v)
  \/ \E b \in Builders : Op("make", b, "", 0) /\ Make(b)
Spec == Init /\ [][Next]_vars

View == <<bvars, n>>
EmitAll == (Emit /\ n' = MaxOps /\ made' # <<>>) => PrintT("@@H " \o ToJson(hist'))

(* C25: an index is what its builder had been asked for when it was made.    *)
Is(k) == IF Way = "late" THEN has[made[k].b] ELSE made[k].has
Assembled == \A k \in 1..Len(made) : Is(k) = made[k].want
=============================================================================
