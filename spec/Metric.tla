------------------------------- MODULE Metric -------------------------------
(* The laws of the angular distance, for all vectors of small integers, of   *)
(* the distance as it is computed: from the items' stored squared norms,     *)
(* where a stored norm of 0 is one that is not there yet. Way: "right", or   *)
(* broken: "one" (one of the norms counts twice), "abs" (opposite vectors    *)
(* are the same), "zero" (a zero vector is at no distance), "plain" (lengths *)
(* are not taken out), "stale" (a norm of another vector was left there).    *)
EXTENDS MetricDef, TLC, Json

CONSTANTS Dim, R, Way, Emit

VARIABLES u, v, w, k
vars == <<u, v, w, k>>

Vectors == [1..Dim -> -R..R]
Times(x, m) == [i \in 1..Dim |-> m * x[i]]

Norm(x) == IF Way = "stale" /\ x[1] < 0 THEN 1 ELSE Dot(x, x)
D(x, y) == LET pp == Norm(x)
               qq == IF Way = "one" THEN Norm(x) ELSE Norm(y)
               den == IF Way = "plain" THEN 1 ELSE pp * qq
           IN IF IsZero(x) \/ IsZero(y) THEN (IF Way = "zero" THEN <<1, 1, 1>> ELSE <<0, 0, 1>>)
              ELSE <<IF Way = "abs" THEN Sign(Sq(Dot(x, y))) ELSE Sign(Dot(x, y)), Sq(Dot(x, y)), den>>

Init == /\ u \in Vectors /\ v \in Vectors /\ k \in 1..2
        /\ w \in IF Dim <= 2 /\ R <= 2 THEN Vectors ELSE {[i \in 1..Dim |-> IF i = 1 THEN 1 ELSE 0]}
        /\ (Emit /\ k = 1) => PrintT("@@H " \o ToJson(<<u, v>>))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* C19 *)
AsDefined == CosEq(D(u, v), Cos(u, v))
Symmetric == CosEq(D(u, v), D(v, u))
Bounded == D(u, v)[2] <= D(u, v)[3]                 \* |cos| <= 1: from 0 to 2
NoneForParallel == (D(u, v)[1] = 1 /\ D(u, v)[2] = D(u, v)[3]) <=> Parallel(u, v)
FarthestOpposite == (D(u, v)[1] = -1 /\ D(u, v)[2] = D(u, v)[3]) <=> Parallel(u, Times(v, -1))
ScaleFree == CosEq(D(Times(u, k), v), D(u, v))
ZeroVector == IsZero(u) => D(u, v) = <<0, 0, 1>>
Ordered == CosLess(D(u, v), D(u, w)) <=> CosLess(Cos(u, v), Cos(u, w))
=============================================================================
