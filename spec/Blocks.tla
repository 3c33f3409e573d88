------------------------------- MODULE Blocks -------------------------------
(* Two nodes side by side in memory, and whatever may be done to a node.     *)
(* Each step must change what it names, to what was asked, and nothing else; *)
(* what it names is said here without the places of BlocksDef: as the values *)
(* that the readers return. Way: "right", or broken: "units" (elements are   *)
(* taken for as wide as ids), "tail" (sums leave out the last element of an  *)
(* odd number), "overfull" (one more child is said to fit), "factor" (the    *)
(* factor is not scaled with the vector), "short" (a copy leaves out the     *)
(* last bytes), "zero" (the length of a zero vector is divided by), "raised" *)
(* (factors are for the first node's length, not the largest).               *)
EXTENDS BlocksDef, TLC

CONSTANTS IdBytes, ElBytes, Lifted, Dim, Steps, Way

VARIABLES mem, step, did
vars == <<mem, step, did>>

Shape == [id |-> IdBytes, el |-> ElBytes, dot |-> Lifted, dim |-> Dim, before |-> 3]
Nodes == {0, 1}
Total == 3 + 2 * Size(Shape) + 3

(* Vectors whose lengths, and the roots of the differences of their squares, *)
(* are whole: 0, 3, 4, 5 and, in four dimensions, 2.                         *)
Vectors == {[k \in 1..Dim |-> IF k = Dim THEN 64 * n ELSE 0] : n \in {0, 4, -5}}
           \cup {[k \in 1..Dim |-> 128] : x \in {y \in {1} : Dim = 4}}
           \cup (IF Dim >= 2 THEN {[k \in 1..Dim |-> IF k = 1 THEN 192 ELSE IF k = Dim THEN -256 ELSE 0]} ELSE {})
Full == Room(Shape) + (IF Way = "overfull" THEN 1 ELSE 0)
Lists == {<<7>>, <<258, 9>>, [k \in 1..Full |-> 100 + k]}

BadVec(i, vs) == Put(mem, At(Shape, i) + VecAt(Shape), SubSeq(Floats(vs, ElBytes), 1, Len(vs) * IdBytes))
BadSum(v) == Dot(v, v, Dim - (Dim % 2))
DoVec(i, vs) == IF Way = "units" /\ IdBytes < ElBytes THEN BadVec(i, vs) ELSE SetVec(mem, Shape, i, vs)
DoInit(i) == IF Way = "tail" /\ ~Lifted THEN SetNorm(mem, Shape, i, BadSum(Vec(mem, Shape, i)) \div 64) ELSE InitNode(mem, Shape, i)
DoNormalize(i) ==
  IF Way = "zero" /\ Square(mem, Shape, i) = 0 THEN SetVec(mem, Shape, i, [k \in 1..Dim |-> 64])
  ELSE IF Way = "factor" THEN SetFactor(Normalize(mem, Shape, i), Shape, i, Factor(mem, Shape, i))
  ELSE Normalize(mem, Shape, i)
DoCopy(i, j) == Copy(mem, Shape, i, j, IF Way = "short" THEN Size(Shape) - ElBytes ELSE Size(Shape))
DoPre == IF Way = "raised" /\ Lifted /\ Square(mem, Shape, 0) >= Square(mem, Shape, 1) /\ Square(mem, Shape, 1) > 0
         THEN SetFactor(SetFactor(mem, Shape, 0, Length(mem, Shape, 0)), Shape, 1, 0) ELSE PreProcess(mem, Shape, 2)

(* What may be normalized and lifted here: results that are not rounded.     *)
Plain(i) == /\ \A k \in 1..Dim : LET b == Slice(mem, At(Shape, i) + VecAt(Shape) + (k - 1) * ElBytes, ElBytes)
                                 IN Sound(b) /\ Abs(Read(b)) <= 4096
            /\ (Lifted => LET b == Slice(mem, At(Shape, i) + FactorAt(Shape), ElBytes) IN Sound(b) /\ Abs(Read(b)) <= 4096)
Fits(i) == /\ HasRoot(Square(mem, Shape, i))
           /\ LET n == Length(mem, Shape, i)
              IN n > 0 => \A k \in 1..Dim : (Vec(mem, Shape, i)[k] * 64) % n = 0
           /\ LET n == Length(mem, Shape, i) IN n > 0 => (Factor(mem, Shape, i) * 64) % n = 0

Init == mem = [k \in 1..Total |-> IF k <= 3 \/ k > Total - 3 THEN 255 ELSE 0] /\ step = 0 /\ did = [op |-> "none"]
Do(m, d) == mem' = m /\ did' = d /\ step' = step + 1
Next ==
  /\ step < Steps
  /\ \E i \in Nodes :
       \/ \E n \in {0, 1, 300} : Do(SetDesc(mem, Shape, i, n), [op |-> "desc", i |-> i, n |-> n])
       \/ \E ks \in Lists : Do(SetKids(mem, Shape, i, ks), [op |-> "kids", i |-> i, ks |-> ks])
       \/ \E a \in {64, -160} : Do(SetNorm(mem, Shape, i, a), [op |-> "norm", i |-> i, a |-> a])
       \/ \E vs \in Vectors : Do(DoVec(i, vs), [op |-> "vec", i |-> i, vs |-> vs])
       \/ Do(DoCopy(i, 1 - i), [op |-> "copy", i |-> i])
       \/ Plain(i) /\ (Do(DoInit(i), [op |-> "init", i |-> i])
                      \/ (Fits(i) /\ Do(DoNormalize(i), [op |-> "normalize", i |-> i])))
       \/ (i = 0 /\ Plain(0) /\ Plain(1) /\ HasRoot(Abs(Square(mem, Shape, 0) - Square(mem, Shape, 1)))
                 /\ Do(DoPre, [op |-> "pre", i |-> 0]))
Spec == Init /\ [][Next]_vars

(* What can be read of a node, and what overlaps what: the norm and the two  *)
(* children share their place, a longer list of children takes the vector's. *)
D(m, i) == Descendants(m, Shape, i)
K2(m, i) == Slice(m, At(Shape, i) + KidsAt(Shape), 2 * IdBytes)
V(m, i) == Slice(m, At(Shape, i) + VecAt(Shape), Dim * ElBytes)
F(m, i) == IF Lifted THEN Slice(m, At(Shape, i) + FactorAt(Shape), ElBytes) ELSE <<>>
VN(m, i) == Vec(m, Shape, i)
FN(m, i) == Factor(m, Shape, i)
Inside(i, k) == k > At(Shape, i) /\ k <= At(Shape, i) + Size(Shape)

(* C28 *)
Apart == [][did'.op # "pre" => \A k \in 1..Total : ~Inside(did'.i, k) => mem'[k] = mem[k]]_vars
Guarded == \A k \in 1..Total : (k <= 3 \/ k > Total - 3) => mem[k] = 255
KeepsRest ==
  [][LET i == did'.i  o == did'.op
     IN /\ (o # "pre" /\ o # "copy" /\ o # "desc" => D(mem', i) = D(mem, i))
        /\ (o \in {"desc", "vec", "pre"} => K2(mem', i) = K2(mem, i))
        /\ (o \in {"desc", "norm", "pre", "init"} => V(mem', i) = V(mem, i))
        /\ (o \in {"desc", "norm", "vec", "init"} => F(mem', i) = F(mem, i))
        /\ (o = "pre" => V(mem', 1) = V(mem, 1) /\ D(mem', 1) = D(mem, 1) /\ D(mem', 0) = D(mem, 0))]_vars
Obeyed ==
  [][LET i == did'.i  o == did'.op
     IN /\ (o = "desc" => D(mem', i) = did'.n)
        /\ (o = "kids" => Kids(mem', Shape, i, Len(did'.ks)) = did'.ks)
        /\ (o = "norm" => Read(Norm(mem', Shape, i)) = did'.a)
        /\ (o = "vec" => VN(mem', i) = did'.vs)
        /\ (o = "copy" => D(mem', i) = D(mem, 1 - i) /\ K2(mem', i) = K2(mem, 1 - i) /\ V(mem', i) = V(mem, 1 - i)
                          /\ F(mem', i) = F(mem, 1 - i))]_vars
Unit == [][did'.op = "normalize" =>
           LET i == did'.i  n == Length(mem, Shape, i)
           IN IF n = 0 THEN mem' = mem
              ELSE /\ Square(mem', Shape, i) = 4096
                   /\ \A k \in 1..Dim : VN(mem', i)[k] * n = VN(mem, i)[k] * 64
                   /\ FN(mem', i) * n = FN(mem, i) * 64]_vars
Measured == [][did'.op = "init" => (IF Lifted THEN mem' = mem
               ELSE Read(Norm(mem', Shape, did'.i)) * 64 = Square(mem, Shape, did'.i))]_vars
Level == [][did'.op = "pre" /\ Lifted =>
            /\ Square(mem', Shape, 0) + FN(mem', 0) * FN(mem', 0) = Square(mem', Shape, 1) + FN(mem', 1) * FN(mem', 1)
            /\ (FN(mem', 0) = 0 \/ FN(mem', 1) = 0)]_vars
=============================================================================
